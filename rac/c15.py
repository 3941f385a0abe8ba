from common import *
from lowref import *
@test(n=40)
def constant(rng):
    c = cfg(rng); note(**c); g = LowFreqGenerator(c)
    w = const(c); check(abs(g.c - w) <= 2e-3 * w, "c", g.c, w)
@test(n=25)
def field(rng):
    c = cfg(rng); note(**c); g = LowFreqGenerator(c); s = rng.randrange(10 ** 6)
    np.random.seed(s); n = np.random.normal(0, 1, size=(g.comp_N1, g.comp_N2))
    q1, q2 = coefs(g, c, n, g.c)
    for k in range(2):
        np.random.seed(s); u1, u2 = g.generate()
        for u, q in ((g.u1_full, q1), (g.u2_full, q2)):
            relclose(u, np.real(np.fft.ifft2(q)), 1e-9, "field"); check(abs(u.mean()) <= 1e-9 * max(abs(u).max(), 1e-300), "mean", u.mean())
        N, M = 2 ** c["exp1"], 2 ** c["exp2"]; a, b = (g.comp_N1 - N) // 2, (g.comp_N2 - M) // 2
        relclose(u1, np.real(np.fft.ifft2(q1))[a:a + N, b:b + M], 1e-9, "delivered u1"); relclose(u2, np.real(np.fft.ifft2(q2))[a:a + N, b:b + M], 1e-9, "delivered u2")
@test(n=20)
def divergence(rng):
    c = cfg(rng); note(**c); g = LowFreqGenerator(c); n = np.random.randn(g.comp_N1, g.comp_N2)
    a, b = g._generate_numba_helper(g.k1, g.k2, g.c, g.L_2d, g.psi, g.z_i, g.comp_dx, g.comp_dy, g.comp_N1, g.comp_N2, np.fft.fft2(n))
    d = g.k1 * a + g.k2 * b; check(abs(d).max() <= 1e-10 * abs(g.k1 * a).max(), "k1 u1 + k2 u2", abs(d).max())
    check(abs(a[0, 0]) == 0 and abs(b[0, 0]) == 0, "mean coefficient")
if __name__ == "__main__": main()
