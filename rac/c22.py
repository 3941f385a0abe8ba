from common import *
import numpy as np, torch, torch.nn as nn, itertools
from drdmannturb.fluctuation_generation.fluctuation_field_generator import FluctuationFieldGenerator
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField, VectorGaussianRandomField
from drdmannturb.fluctuation_generation.covariance_kernels import VonKarmanCovariance, MannCovariance
from drdmannturb.fluctuation_generation.nn_covariance import NNCovariance
from drdmannturb.spectra_fitting import CalibrationProblem
from drdmannturb.nn_modules import TauNet
from drdmannturb.enums import EddyLifetimeType as T
from drdmannturb.parameters import *
from drdmannturb.parameters import DomainParameters
def rejected(what, f):
    try: f()
    except Exception as e:
        if in_repo(e.__traceback__): return
        raise Inconclusive("harness error: %r" % e)
    raise AssertionError("accepted: " + what)
def word(rng, bad=()):
    while True:
        w = rng.choice(["", "vk", "VonKarman", "mann", "MANN", "DRD ", "drd", "Kaimal", "V", "Man", "DR", "fft ", "FFT", "vf", "dft", "fftw_vf", "VF_FFTW", "x" * rng.randint(1, 9), "".join(rng.choice("abcDVKMn_ft") for _ in range(rng.randint(1, 7)))])
        if w not in bad: return w
P = lambda rng, lo=-2, hi=2: 10 ** rng.uniform(lo, hi)
def gen(rng, model, L, T_, E0, **k):
    return FluctuationFieldGenerator(P(rng, -1, 0), P(rng), np.array([P(rng, 2, 3) for _ in range(3)]), np.array([rng.randint(1, 3) for _ in range(3)]), model, L, T_, E0, **k)
@test(40)
def generators(rng):
    w = word(rng, ("VK", "Mann", "DRD")); note(name=w); rejected("model name %r" % w, lambda: gen(rng, w, P(rng), P(rng), P(rng)))
    rejected("DRD without a file", lambda: gen(rng, "DRD", *rng.choice([(None,) * 3, (1.0, 1.0, 1.0)])))
    for model in ("VK", "Mann"):
        for m in range(1, 8): rejected("%s without scales (mask %d)" % (model, m), lambda: gen(rng, model, *[None if m >> b & 1 else P(rng) for b in range(3)]))
        L, G, E0 = P(rng), rng.uniform(.5, 4), P(rng); b = rng.randint(0, 3); s = rng.choice([None, rng.randint(0, 99)])
        g = gen(rng, model, L, G, E0, blend_num=b, seed=s); c = g.RF.Covariance
        check(type(c).__name__ == {"VK": "VonKarmanCovariance", "Mann": "MannCovariance"}[model], "kernel"); check(g.blend_num == b and g.seed == s, "settings stored"); close(c.L, L, what="length scale")
        if model == "Mann": close(c.Gamma, G, what="time scale")
@test(40)
def kernels(rng):
    n = rng.choice([0, 1, 2, 4, 5, -3, 7]); note(ndim=n)
    rejected("von Karman kernel in %d dimensions" % n, lambda: VonKarmanCovariance(n, P(rng), P(rng))); rejected("Mann kernel in %d dimensions" % n, lambda: MannCovariance(n, P(rng), P(rng), P(rng)))
    rejected("DRD kernel in %d dimensions" % n, lambda: NNCovariance(n, P(rng), P(rng), P(rng), None, P(rng)))
    L, E0, G = P(rng), P(rng), P(rng)
    for c in (VonKarmanCovariance(3, L, E0), MannCovariance(3, L, E0, G), NNCovariance(3, L, E0, G, None, P(rng))):
        check(c.ndim == 3, "dimension"); close(c.L, L); close(c.E0, E0)
        if hasattr(c, "Gamma"): close(c.Gamma, G)
@test(30)
def fields(rng):
    class Cov:
        ndim = 3
        def __init__(s, v): s.v = v
        def precompute_Spectrum(s, fr): return np.ones(([3, 3] if s.v else []) + [len(f) for f in fr])
    kw = lambda **k: dict(dict(Covariance=Cov(1), grid_level=np.array([2, 2, 2]), grid_shape=np.array([4, 5, 6]), grid_dimensions=np.array([1., 2., 3.]), ndim=3, sampling_method="vf_fftw"), **k)
    M = ("fft", "dst", "dct", "fftw", "vf_fftw"); w = word(rng, M); note(method=w)
    rejected("sampling method %r" % w, lambda: VectorGaussianRandomField(**kw(sampling_method=w))); rejected("sampling method %r" % w, lambda: GaussianRandomField(**kw(Covariance=Cov(0), sampling_method=w)))
    v = VectorGaussianRandomField(**kw()); rejected("sampling method %r set later" % w, lambda: v.setSamplingMethod(w))
    check(type(v.Correlate).__name__ == "Sampling_VF_FFTW", "sampler")
    for m in M[:4]:
        g = GaussianRandomField(**kw(Covariance=Cov(0), sampling_method=m)); check(g.method == m and type(g.Correlate).__name__ == "Sampling_" + m.upper(), "sampler of method " + m)
    n = rng.choice([1, 2, 4, 5])
    rejected("%d grid dimensions" % n, lambda: VectorGaussianRandomField(**kw(grid_dimensions=np.ones(n)))); rejected("%d grid levels" % n, lambda: VectorGaussianRandomField(**kw(grid_level=np.ones(n, dtype=int))))
    rejected("one level for a grid of several shapes", lambda: GaussianRandomField(**kw(Covariance=Cov(0), grid_level=3, sampling_method="fftw")))
    s = rng.randint(2, 5); g = GaussianRandomField(**kw(Covariance=Cov(0), grid_level=3, grid_shape=s, sampling_method="fftw")); check(tuple(g.grid_shape) == (s,) * 3, "cubic grid")
def cal(n, kind, L, G, M, **k):
    return CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(num_components=n, eddy_lifetime=kind, **k), loss_params=LossParameters(), phys_params=PhysicalParameters(L=L, Gamma=G, sigma=M), logging_directory=SCRATCH + "/log", output_directory=SCRATCH)
@test(20)
def calibrations(rng):
    kind = rng.choice([T.TAUNET, T.CONST, T.MANN, T.TWOTHIRD, T.MANN_APPROX]); note(kind=kind); v = [P(rng, -1, 1), rng.uniform(.5, 4), P(rng, -1, 1)]
    n = rng.choice([0, 1, 2, 5, 7, 8, 9, -4]); rejected("%d components" % n, lambda: cal(n, kind, *v))
    for i, nm in enumerate(("length", "time", "amplitude")):
        bad = list(v); bad[i] = rng.choice([0.0, -1.0, -1e-9, -P(rng), 0]); rejected("%s scale %r" % (nm, bad[i]), lambda: cal(rng.choice((3, 4, 6)), kind, *bad))
    for k in (3, 4, 6):
        c = cal(k, kind, *v, use_learnable_spectrum=rng.random() < .5); check(c.prob_params.num_components == k, "component count")
        close(np.asarray(c.parameters[:3], dtype=float), np.log(v), rtol=1e-5, what="log scales"); check(c.OPS.type_EddyLifetime == kind, "lifetime type")
@test(40)
def networks(rng):
    for d in (0, -1, -5, 1.5, "2", None): rejected("depth %r" % (d,), lambda: TauNet(n_layers=d))
    d = rng.randint(1, 5); note(depth=d)
    for w in (0, -1, -7): rejected("width %r" % w, lambda: TauNet(d, w))
    for k in range(0, 7):
        if k != d:
            rejected("%d widths for %d layers" % (k, d), lambda: TauNet(d, [rng.randint(1, 9) for _ in range(k)])); rejected("%d activations for %d layers" % (k, d), lambda: TauNet(d, 4, [nn.ReLU() for _ in range(k)]))
    for j in range(d):
        rejected("width %d not positive" % j, lambda: TauNet(d, [rng.choice([0, -1, -4]) if i == j else rng.randint(1, 9) for i in range(d)]))
        rejected("activation %d no module" % j, lambda: TauNet(d, 4, [rng.choice([None, "relu", torch.relu]) if i == j else nn.ReLU() for i in range(d)]))
    for a in (3, "relu", torch.relu, (nn.ReLU(),) * d): rejected("activation %r" % (a,), lambda: TauNet(d, 4, a))
    ws = [rng.randint(1, 9) for _ in range(d)] if rng.random() < .5 else rng.randint(1, 9); acts = rng.choice([None, nn.Tanh(), [nn.Tanh() for _ in range(d)]])
    t = TauNet(d, ws, acts); full = ws if isinstance(ws, list) else [ws] * d; dims = [3] + full + [3]
    check(list(t.hidden_layer_sizes) == full and t.n_layers == d and len(t.activations) == d, "settings stored"); check([tuple(l.weight.shape) for l in t.linears] == [(dims[i + 1], dims[i]) for i in range(d + 1)], "matrix sizes", [tuple(l.weight.shape) for l in t.linears])
    check(bool(torch.isfinite(t(torch.rand(5, 3))).all()), "evaluates")
@test(40)
def domains(rng):
    mk = {"tuple": tuple, "list": list, "array": np.array}
    for nm, f in mk.items():
        for k in (0, 1, 2, 4, 5, 6):
            rejected("%s of %d dimensions" % (nm, k), lambda: DomainParameters(f([1.0] * k), f([2, 3, 4]))); rejected("%s of %d levels" % (nm, k), lambda: DomainParameters(f([1.0, 2.0, 3.0]), f([2] * k)))
            rejected("%s of %d dimensions and levels" % (nm, k), lambda: DomainParameters(f([1.0] * k), f([2] * k)))
        D, l = [P(rng, 0, 3) for _ in range(3)], [rng.randint(1, 9) for _ in range(3)]; g = rng.choice(list(mk.values())); note(container=nm)
        p = DomainParameters(f(D), g(l)); close(p.grid_dimensions, np.array(D)); close(p.grid_levels, np.array(l)); check(isinstance(p.grid_dimensions, np.ndarray) and isinstance(p.grid_levels, np.ndarray), "stored as arrays")
main()
