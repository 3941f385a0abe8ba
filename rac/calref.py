from opsref import *
from drdmannturb.parameters import ProblemParameters, LossParameters
from drdmannturb.spectra_fitting.calibration import CalibrationProblem
from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra
ALL = KINDS + ["MANN_APPROX"]
def problem(rng, kind=None, learn=None, comps=4, nepochs=2, phys=None, loss=None, n=5, **pk):
    kind = kind or rng.choice(ALL); learn = rng.random() < .4 if learn is None else learn
    ph = dict(L=10 ** rng.uniform(-1, 2), Gamma=10 ** rng.uniform(-.5, .8), sigma=10 ** rng.uniform(-1, 1), Uref=rng.uniform(5, 25), zref=10 ** rng.uniform(-1, 2)); ph.update(phys or {})
    p, q = rng.uniform(2, 5), rng.uniform(1.5, 3.5)
    a = rng.uniform(-3, -1)
    I = IntegrationParameters(ops_log_min=a, ops_log_max=a + rng.uniform(1, 4), ops_num_points=rng.randrange(2, n + 1))
    nn = NNParameters(nlayers=rng.randrange(1, 4), hidden_layer_size=rng.randrange(1, 8))
    pr = ProblemParameters(num_components=comps, nepochs=nepochs, eddy_lifetime=getattr(EddyLifetimeType, kind), use_learnable_spectrum=learn, p_exponent=p, q_exponent=q, learn_nu=rng.random() < .5, **pk)
    c = CalibrationProblem(nn_params=nn, prob_params=pr, loss_params=loss or LossParameters(), phys_params=PhysicalParameters(**ph), integration_params=I, logging_directory="tb", output_directory="out")
    return c, dict(kind=kind, learn=learn, p=p, q=q, I=I, **ph)
