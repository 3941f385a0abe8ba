from common import *
from lowref import *
@test(n=60)
def grid(rng):
    c = cfg(rng); note(**c)
    if rng.random() < .3: c["exp1"] = rng.randrange(0, 10); c["exp2"] = rng.randrange(0, 10)
    if 5 / min(c["L1_factor"] / 2 ** c["exp1"], c["L2_factor"] / 2 ** c["exp2"]) > 4000: raise Inconclusive
    g = LowFreqGenerator(c); L = c["L_2d"]; L1, L2 = c["L1_factor"] * L, c["L2_factor"] * L; h = min(L1 / 2 ** c["exp1"], L2 / 2 ** c["exp2"])
    note(**c, comp=(g.comp_L1, g.comp_L2, g.comp_N1, g.comp_N2))
    for n, ext, want in ((g.comp_N1, g.comp_L1, L1), (g.comp_N2, g.comp_L2, L2)):
        check(n % 2 == 0 and n >= 2, "even number of points", n)
        check(abs(ext / n - h) <= 1e-9 * h, "spacing", ext / n, h)
        check(ext >= max(want, 5 * L) * (1 - 1e-9), "extent", ext, want, 5 * L)
    check(g.comp_N1 >= 2 ** c["exp1"] and g.comp_N2 >= 2 ** c["exp2"], "enough points")
    close(g.k1[:, 0], 2 * np.pi * np.fft.fftfreq(g.comp_N1, h), rtol=1e-9); close(g.k2[0], 2 * np.pi * np.fft.fftfreq(g.comp_N2, h), rtol=1e-9)
    close(g.X, np.broadcast_to(np.arange(2 ** c["exp1"])[:, None] * L1 / 2 ** c["exp1"], g.X.shape), rtol=1e-9)
    close(g.Y, np.broadcast_to(np.arange(2 ** c["exp2"])[None, :] * L2 / 2 ** c["exp2"], g.Y.shape), rtol=1e-9)
@test(n=30)
def extraction(rng):
    c = cfg(rng)
    if rng.random() < .4: c[rng.choice(["exp1", "exp2"])] = rng.choice([0, 0, 1])
    if max(c["L1_factor"], c["L2_factor"], 5) / min(c["L1_factor"] / 2 ** c["exp1"], c["L2_factor"] / 2 ** c["exp2"]) > 4000: raise Inconclusive
    g = LowFreqGenerator(c); N, M = 2 ** c["exp1"], 2 ** c["exp2"]; a, b = rng.randrange(0, 9), rng.randrange(0, 9); note(**c, extra=(a, b))
    f = np.random.randn(N + a, M + b)
    close(g._extract_field_portion(f), f[a // 2:a // 2 + N, b // 2:b // 2 + M], rtol=0, atol=0, what="window")
@test(n=20)
def delivered(rng):
    c = cfg(rng)
    if rng.random() < .3: c[rng.choice(["exp1", "exp2"])] = 0
    if max(c["L1_factor"], c["L2_factor"], 5) / min(c["L1_factor"] / 2 ** c["exp1"], c["L2_factor"] / 2 ** c["exp2"]) > 2000: raise Inconclusive
    g = LowFreqGenerator(c); note(**c)
    for _ in range(2):
        u1, u2 = g.generate(); N, M = 2 ** c["exp1"], 2 ** c["exp2"]
        a, b = (g.comp_N1 - N) // 2, (g.comp_N2 - M) // 2
        check(g.u1_full.shape == (g.comp_N1, g.comp_N2), "internal shape")
        for u, own, full in ((u1, g.u1, g.u1_full), (u2, g.u2, g.u2_full)):
            close(u, full[a:a + N, b:b + M], rtol=0, atol=0, what="delivered"); close(own, full[a:a + N, b:b + M], rtol=0, atol=0, what="kept")
if __name__ == "__main__": main()
