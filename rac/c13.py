from common import *
from fluctref import *
from drdmannturb.fluctuation_generation.gaussian_random_fields import VectorGaussianRandomField
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance, VonKarmanCovariance
def kernel_ref(F, C):
    """the kernel evaluated by its own (separately proved) contract code on full frequency arrays"""
    return C.precompute_Spectrum(F)
def ref(noise, n, h, C):
    F = [2 * np.pi * np.fft.fftfreq(m, d=s) for m, s in zip(n, h)]
    G = kernel_ref(F, C)[..., :n[2] // 2 + 1]
    H = np.stack([np.fft.rfftn(noise[..., c]) for c in range(3)])
    Y = np.einsum("kl...,l...->k...", G, H) * np.sqrt(np.prod(n))
    return np.stack([np.fft.irfftn(Y[c], s=tuple(n), axes=(0, 1, 2)) for c in range(3)], -1) / np.sqrt(np.prod(np.asarray(n) * h))
def setup(rng):
    lv = np.array([rng.randrange(1, 4) for _ in range(3)]); D = np.array([rng.uniform(2, 40) for _ in range(3)]); n = [rng.randrange(2, 14) for _ in range(3)]
    L = rng.uniform(.5, 10); C = MannCovariance(3, L, 10 ** rng.uniform(-1, 1), rng.uniform(.1, 4)) if rng.random() < .5 else VonKarmanCovariance(3, L, 10 ** rng.uniform(-1, 1))
    rf = VectorGaussianRandomField(ndim=3, grid_level=lv, grid_dimensions=D, sampling_method="vf_fftw", grid_shape=n, Covariance=C)
    note(levels=lv.tolist(), D=D.tolist(), n=n, kernel=type(C).__name__, L=L)
    return rf, C, n, D / (2.0 ** lv + 1)
@test(n=30)
def filtering(rng):
    rf, C, n, h = setup(rng); outs = []
    for _ in range(rng.randrange(1, 4)):
        z = np.random.randn(*n, 3) * 10 ** rng.uniform(-2, 2); z0 = z.copy(); y = rf.sample(z)
        check(np.array_equal(z, z0), "the noise passed in was modified")
        r = ref(z0, n, h, C); relclose(y, r, tol=2e-5, what="sampled field"); outs.append((y, y.copy()))
        for a, b in outs: check(np.array_equal(a, b), "a field returned earlier was altered")
@test(n=20)
def repeat(rng):
    rf, C, n, h = setup(rng); z = np.random.randn(*n, 3); a = rf.sample(z.copy()).copy(); rf.sample(np.random.randn(*n, 3) * 1e3); b = rf.sample(z.copy())
    relclose(b, a, tol=1e-9, what="sample of the same noise after another sample")
@test(n=20)
def refilled(rng):
    """one noise array refilled in place, returned fields overwritten by their user"""
    rf, C, n, h = setup(rng); z = np.random.randn(*n, 3); rf.sample(z)
    for _ in range(2):
        z[...] = np.random.randn(*n, 3) if rng.random() < .7 else z[::-1].copy()
        for _ in range(2):
            y = rf.sample(z); relclose(y, ref(z, n, h, C), tol=2e-5, what="sample of a refilled noise array"); y[...] = 7.0
@test(n=20)
def noise(rng):
    rf, C, n, h = setup(rng); s = rng.randrange(10 ** 6); sh = [rng.randrange(1, 6) for _ in range(4)]; rf.reseed(s)
    a, b = rf.sample_noise(sh), rf.sample_noise(sh); R = np.random.RandomState(s); sd = np.sqrt(np.prod(h))
    close(a, sd * R.normal(0, 1, sh), what="first noise"); close(b, sd * R.normal(0, 1, sh), what="second noise")
@test(n=20)
def in_generator(rng):
    g, d = gen(rng, maxlevel=2); P = [int(x) for x in g.noise_shape]; h = d["D"] / (2.0 ** d["levels"] + 1); note(**show(d))
    z = g.RF.sample_noise(g.noise_shape); y = g.RF.sample(z.copy()); R = np.random.RandomState(d["seed"])
    close(z, np.sqrt(np.prod(h)) * R.normal(0, 1, P), what="generator noise")
    E0 = d["E0"] * d["ustar"] ** 2 * d["zref"] ** (-2 / 3)
    C = MannCovariance(3, d["L"], E0, d["T"]) if d["model"] == "Mann" else VonKarmanCovariance(3, d["L"], E0)
    relclose(y, ref(z, P[:3], h, C), tol=2e-5, what="field of the generator")
if __name__ == "__main__": main()
