from common import *
from lowref import *
from scipy import integrate
@test(n=30)
def estimator(rng):
    c = cfg(rng); note(**c); g = LowFreqGenerator(c); g.generate(); N, M = 2 ** c["exp1"], 2 ** c["exp2"]
    if rng.random() < .5: g.u1 = np.random.randn(N, M); g.u2 = np.random.randn(N, M)
    k, F11, F22 = g.compute_spectrum(); L1 = c["L1_factor"] * c["L_2d"]
    want = 2 * np.pi * np.arange(1, N // 2) / L1
    check(len(k) >= len(want), "number of wavenumbers", len(k), len(want)); close(k[:len(want)], want, rtol=1e-9); check((np.diff(k) > 0).all(), "order"); check((k > 0).all(), "positive")
    for u, F in ((g.u1, F11), (g.u2, F22)):
        P = np.abs(np.fft.fft2(u)) ** 2; check(len(F) == len(k), "length")
        close(F[:len(want)], P[1:N // 2].sum(axis=1) * L1 / ((N * M) ** 2 * 2 * np.pi), rtol=1e-7, atol=0, what="estimated spectrum"); check((F >= 0).all(), "non-negative")
@test(n=25)
def theory(rng):
    c = cfg(rng); g = LowFreqGenerator(c); L = c["L_2d"]; lim = rng.choice([5.0, 10 ** rng.uniform(-1, 1)])
    if rng.random() < .3:
        c.update(L_2d=10 ** rng.uniform(0, 1.5), z_i=10 ** rng.uniform(-1, .5)); g = LowFreqGenerator(c); L = c["L_2d"]
        K = np.array(rng.sample([1, 2, 3, 4], 2))
    else: K = 10 ** np.random.uniform(-1, 2, rng.randrange(1, 4)) / L
    if rng.random() < .3: K = K * -1
    note(**c, k1=repr(K), limit=lim)
    a, b = g.analytical_spectrum(K, k2_limit=rng.choice([1, -1]) * lim)
    def E(k1, k2):
        kap = math.sqrt(2 * ((k1 * math.cos(c["psi"])) ** 2 + (k2 * math.sin(c["psi"])) ** 2)); return g.c * shape(kap, L, c["z_i"])
    for i, k1 in enumerate(K):
        k1 = float(k1)
        for n, F in ((0, a), (1, b)):
            f = lambda k2: E(k1, k2) / (math.pi * math.hypot(k1, k2)) * ((k2 if n == 0 else k1) ** 2) / (k1 ** 2 + k2 ** 2)
            w, err = integrate.quad(f, -abs(lim), abs(lim), limit=100, epsabs=1.49e-8, epsrel=1.49e-8)
            check(abs(F[i] - w) <= 1e-6 * abs(w) + 3 * err + 1e-12, "theoretical spectrum %s" % "uv"[n], F[i], w)
@test(n=5)
def zero(rng):
    c = cfg(rng); g = LowFreqGenerator(c); note(**c); a, b = g.analytical_spectrum(np.array([0.0])); check(a[0] == 0 and b[0] == 0, "zero entry")
if __name__ == "__main__": main()
