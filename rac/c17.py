from common import *
from fluctref import *
import lowref
def bil(u, x, y, dx, dy):
    """bilinear interpolation, zero outside the coordinates of the low-frequency grid"""
    N, M = u.shape; out = np.zeros((len(x), len(y))); edge = np.zeros((len(x), len(y)), bool)
    for i, a in enumerate(x):
        for j, b in enumerate(y):
            s, t = a / dx, b / dy
            if min(abs(s), abs(s - (N - 1)), abs(t), abs(t - (M - 1))) < 1e-9: edge[i, j] = True
            if not (0 <= s <= N - 1 and 0 <= t <= M - 1): continue
            p, q = min(int(s), N - 2), min(int(t), M - 2); s -= p; t -= q
            out[i, j] = (1 - s) * (1 - t) * u[p, q] + s * (1 - t) * u[p + 1, q] + (1 - s) * t * u[p, q + 1] + s * t * u[p + 1, q + 1]
    return out, edge
def same_field(a, ref, edge, what):
    a = a[~edge]; ref = ref[~edge]; close(a, ref, rtol=1e-8, atol=1e-9 * max(1e-300, abs(ref).max() if ref.size else 1), what=what)
@test(n=25)
def interpolation(rng):
    c = lowref.cfg(rng); g = lowref.LowFreqGenerator(c); raises(RuntimeError, g.interp_slice, np.zeros(2), np.zeros(2)); u1, u2 = g.generate(); note(**c)
    L1, L2 = c["L1_factor"] * c["L_2d"], c["L2_factor"] * c["L_2d"]
    x = np.random.uniform(-.3, 1.3, rng.randrange(1, 9)) * L1; y = np.random.uniform(-.3, 1.3, rng.randrange(1, 9)) * L2
    for k in range(2):
        o = g.interp_slice(x, y)
        for n, u in ((0, u1), (1, u2)):
            w, e = bil(u, x, y, L1 / 2 ** c["exp1"], L2 / 2 ** c["exp2"]); check(o[n].shape == w.shape, "shape"); same_field(o[n], w, e, "u%d" % (n + 1))
@test(n=25)
def superposition(rng):
    import pickle, copy
    g, d = gen(rng); p = params(rng)
    if p.get("plexp", 1) < 0: p["plexp"] = .2
    c = lowref.cfg(rng); D = d["D"]
    # a low-frequency domain comparable with the 3D one
    s = rng.uniform(.5, 4); c["L_2d"] = D[0] * s / c["L1_factor"] * rng.choice([1, 2]); c["L2_factor"] = D[1] * rng.choice([.7, 1.0, 1.5, 2.3, 8]) / c["L_2d"]; c["z_i"] = c["L_2d"] / 10
    if max(5, c["L1_factor"], c["L2_factor"]) / min(c["L1_factor"] / 2 ** c["exp1"], c["L2_factor"] / 2 ** c["exp2"]) > 1500: raise Inconclusive
    lf = lowref.LowFreqGenerator(c); lf.generate(); u1, u2 = lf.u1.copy(), lf.u2.copy(); g.low_freq_gen = lf
    plain = []; o = g._normalize_block
    def rec(*a, **k):
        r = o(*a, **k); plain.append(r.copy()); return r
    g._normalize_block = rec
    calls = rng.choice([[1], [2], [1, 1], [2, 1]]); note(**show(d), low=repr(c), calls=calls, params=repr(p))
    for n in calls: out = g.generate(n, **p)
    Nx, Ny, Nz = (int(v) for v in 2 ** d["levels"] + 1); L1, L2 = c["L1_factor"] * c["L_2d"], c["L2_factor"] * c["L_2d"]
    check(out.shape == (Nx * sum(calls), Ny, Nz, 3) and len(plain) == sum(calls), "shape", out.shape)
    for b, pb in enumerate(plain):
        x = D[0] * (b + np.arange(Nx) / Nx); y = (L2 - D[1]) / 2 + np.arange(Ny) * D[1] / Ny
        blk = out[b * Nx:(b + 1) * Nx]
        for n, u in ((0, u1), (1, u2)):
            w, e = bil(u, x, y, L1 / 2 ** c["exp1"], L2 / 2 ** c["exp2"])
            diff = blk[..., n] - pb[..., n]
            for k in range(Nz): close(np.where(e, 0, diff[:, :, k]), np.where(e, 0, w), rtol=1e-8, atol=1e-11 * abs(blk[..., n]).max(), what="block %d component %d" % (b, n))
        close(blk[..., 2], pb[..., 2], rtol=0, atol=1e-12, what="w component")
@test(n=4)
def attached(rng):
    c = lowref.cfg(rng); c["exp1"] = c["exp2"] = 3
    g, d = gen(rng, config_2d_model=c); check(g.low_freq_gen is not None and g.low_freq_gen.u1 is not None and g.low_freq_gen.u1.shape == (8, 8), "low-frequency model attached and generated")
if __name__ == "__main__": main()
