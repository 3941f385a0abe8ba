"""Calibration problems with symbolic settings."""
from opsspec import *
from pyvc import shims
CAL = "drdmannturb.spectra_fitting.calibration"
def problem(chk, kind="TAUNET", learn=False, comps=4, nepochs=None, width=None, layers=2, **loss):
    C = chk.load(CAL); P = chk.load(PAR); En = chk.load(ENU)
    L, G, M = pos("L"), pos("Gamma"), pos("sigma")
    pp, qq = pos("p"), pos("q")
    kw = dict(use_learnable_spectrum=True, p_exponent=pp, q_exponent=qq) if learn else {}
    if nepochs is not None: kw["nepochs"] = nepochs
    prob = P.ProblemParameters(num_components=comps, eddy_lifetime=getattr(En.EddyLifetimeType, kind), **kw)
    I = P.IntegrationParameters()
    p1, p2 = real("p1"), real("p2"); ctx.assume(lt(p1.v, p2.v)); N = nat("Ng", 2)
    I.ops_log_min, I.ops_log_max, I.ops_num_points = p1, p2, N
    nn = P.NNParameters(nlayers=layers, hidden_layer_size=width if width is not None else nat("w"))
    ph = P.PhysicalParameters(L=L, Gamma=G, sigma=M, Uref=pos("Uref"), zref=pos("zref"), ustar=pos("ustar"))
    lo = P.LossParameters(**loss)
    c = C.CalibrationProblem(nn_params=nn, prob_params=prob, loss_params=lo, phys_params=ph, integration_params=I, logging_directory=None, output_directory="/out")
    d = dict(L=L.v, G=G.v, M=M.v, p1=p1.v, p2=p2.v, N=N.v, c1=q(-3), c2=q(3), Nc=q(100), pq=(pp.v, qq.v) if learn else None, prob=prob, phys=ph, nn=nn, loss=lo)
    return c, d
