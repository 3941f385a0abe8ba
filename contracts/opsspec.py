"""Specification of the one-point spectra model, from its documentation."""
from spec import *
OPS = "drdmannturb.spectra_fitting.one_point_spectra"
PAR = "drdmannturb.parameters"; ENU = "drdmannturb.enums"
NAMES = ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))
LN10 = mk("app", ("log", const(10)), "R", nan=False)
class AnyNet:
    """an arbitrary non-negative function of the wavevector"""
    def __call__(self, kv):
        g = kv.getter()
        return SArr(kv.shape_[:-1], lambda idx: uf("tauNet", *[E_(g(idx + (const(c),))) for c in range(3)]), "f", "t")
    def parameters(self): return PList([])
def tensor(kv, beta, E0):
    z1, z2, z3, k0 = zetas(kv, beta)
    kk0 = add(*[sq(x) for x in k0])
    return distort(iso(div(E0, mul(q(4), PI, sq(kk0))), k0), z1, z2, z3)
def floored(P, ij, eps):
    p = P[ij[0]][ij[1]]
    if ij == (0, 2): return ite(lt(app("abs", p), eps), mul(eps, app("sign", p)), p)
    return ite(lt(p, eps), eps, p)
def grid(p1, p2, N, j):
    """-10^..., 0, 10^...: symmetric logarithmic grid of 2N+1 points, 10^p1 to 10^p2"""
    def ls(i): return app("exp", mul(LN10, add(p1, mul(i, div(sub(p2, p1), sub(N, ONE))))))
    return ite(lt(j, N), neg(ls(sub(sub(N, ONE), j))), ite(lt(j, add(N, ONE)), ZERO, ls(sub(sub(j, N), ONE))))
def trap(n, x, f):
    """trapezoidal rule over n points"""
    s = fresh("t", "I"); t = add(s, ONE)
    return sum_(s, sub(n, ONE), mul(const(Fr(1, 2)), sub(x(t), x(s)), add(f(s), f(t))))
def lifetime(kind, k, L, G):
    kk = add(*[sq(x) for x in k])
    if kind == "CONST": t = ONE
    elif kind == "TWOTHIRD": t = powc(mul(kk, sq(L)), Fr(-1, 3))
    elif kind == "MANN": t = mann_lifetime(L, kk)
    elif kind == "TAUNET": t = uf("tauNet", *[mul(x, L) for x in k])
    return mul(G, t)
def energy(L, M, k0, pq=None):
    x = mul(L, sqrt(add(*[sq(a) for a in k0])))
    if pq is None: e = div(powc(x, 4), powc(add(ONE, sq(x)), Fr(17, 6)))
    else: e = div(app("rpow", x, pq[0]), app("rpow", add(ONE, sq(x)), pq[1]))
    return mul(M, powc(L, Fr(5, 3)), e)
def build(chk, kind, learn=False, coherence=False, ip=None, sym_ip=True):
    O = chk.load(OPS); P = chk.load(PAR); En = chk.load(ENU)
    L, G, M = pos("L"), pos("Gamma"), pos("sigma")
    I = P.IntegrationParameters()
    p1, p2 = real("p1"), real("p2"); ctx.assume(lt(p1.v, p2.v)); N = nat("Ng", 2)
    I.ops_log_min, I.ops_log_max, I.ops_num_points = p1, p2, N
    c1, c2 = real("c1"), real("c2"); ctx.assume(lt(c1.v, c2.v)); Nc = nat("Nc", 2)
    I.coh_log_min, I.coh_log_max, I.coh_num_points = c1, c2, Nc
    pp, qq = pos("p"), pos("q")
    kw = dict(use_learnable_spectrum=True, p_exponent=pp, q_exponent=qq) if learn else {}
    o = O.OnePointSpectra(type_eddy_lifetime=getattr(En.EddyLifetimeType, kind), physical_params=P.PhysicalParameters(L=L, Gamma=G, sigma=M), nn_parameters=P.NNParameters(), integration_params=I, use_coherence=coherence, **kw)
    object.__setattr__(o, "training", S(gt(var("training_mode"), ZERO)))  # train() or eval() mode
    if kind == "TAUNET":
        o.__dict__["_modules"].pop("tauNet", None); o.__dict__["tauNet"] = AnyNet()
        numev.declare("tauNet", "nonneg")
    d = dict(L=L.v, G=G.v, M=M.v, p1=p1.v, p2=p2.v, N=N.v, c1=c1.v, c2=c2.v, Nc=Nc.v, pq=(pp.v, qq.v) if learn else None)
    return o, d
def point(d, kind, k):
    beta = lifetime(kind, k, d["L"], d["G"])
    k0 = (k[0], k[1], add(k[2], mul(beta, k[0])))
    return beta, energy(d["L"], d["M"], k0, d["pq"])
