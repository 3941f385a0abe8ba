from common import *
from fluctref import *
class Stream:
    """noise stream cut from one long random array, recording what was asked and sampled"""
    def __init__(self, g, seed):
        self.o = g.RF.sample; self.rng = np.random.RandomState(seed); self.cnt = 0; P = g.noise_shape
        self.data = self.rng.randn(P[0] + 12 * int(g.Nx), P[1], P[2], 3); self.wind = []
        g.RF.sample_noise = self.noise; g.RF.sample = self.sample
    def noise(self, shape=None):
        n = int(shape[0]); r = self.data[self.cnt:self.cnt + n].copy(); check(list(r.shape) == [int(x) for x in shape], "shape of the requested noise", shape, r.shape)
        self.cnt += n; return r
    def sample(self, noise=None):
        self.wind.append(np.array(noise)); return self.o(noise)
@test(n=25)
def stream(rng):
    seed = rng.randrange(10 ** 6); g, d = gen(rng, maxlevel=2 if rng.random() < .6 else 3); p = params(rng); calls = [rng.randrange(0, 4) for _ in range(rng.randrange(1, 4))]
    note(**show(d), calls=calls, params=repr(p), noise_seed=seed)
    s = Stream(g, seed); Nx, Ny, Nz = (int(x) for x in 2 ** d["levels"] + 1); tot = 0; kept = []
    for n in calls:
        y = g.generate(n, **p); tot += n
        check(y.shape == (tot * Nx, Ny, Nz, 3), "shape of the returned field", y.shape, (tot * Nx, Ny, Nz, 3))
        for arr, cp in kept:
            check(np.array_equal(arr, cp), "an array returned earlier was altered"); check(np.array_equal(y[:len(cp)], cp), "planes produced earlier changed")
        kept.append((y, y.copy()))
    check(len(s.wind) == tot, "one sample per block", len(s.wind), tot)
    P = s.wind[0].shape[0] if tot else 0
    dx, dy, dz = d["D"] / (2 ** d["levels"] + 1)
    nb = int(np.ceil(3 * d["T"] * d["L"] / dx)); my = int(np.ceil(d["L"] / dy)); mz = int(np.ceil(d["L"] / dz))
    for b, w in enumerate(s.wind):
        check(w.shape == (Nx + 2 * nb + max(0, d["blend"] - 1), Ny + 2 * my, Nz + 2 * mz, 3), "window shape", w.shape)
        check(np.array_equal(w, s.data[b * Nx:b * Nx + P]), "noise window of block %d is not the stream window" % b)
        blk = s.o(w.copy())[nb:nb + Nx, my:my + Ny, :Nz]; r = blk / np.sqrt((blk ** 2).mean()); r[..., 0] += profile(p, np.arange(Nz) * d["D"][2] / (Nz - 1))
        close(y[b * Nx:(b + 1) * Nx], r, rtol=1e-8, atol=1e-9, what="block %d" % b)
@test(n=15)
def split_calls(rng):
    seed = rng.randrange(10 ** 6); a, b = rng.randrange(1, 3), rng.randrange(1, 3); st = rng.getstate(); p = params(rng); out = []; rng.setstate(st); p = params(rng); st = rng.getstate()
    for calls in ([a + b], [a, b]):
        rng.setstate(st); g, d = gen(rng, maxlevel=2); Stream(g, seed)
        for n in calls: y = g.generate(n, **p)
        out.append(y)
    note(**show(d), calls=[a, b], params=repr(p), noise_seed=seed)
    close(out[0], out[1], rtol=1e-10, atol=1e-12, what="field generated in two calls")
@test(n=10)
def seeded_calls(rng):
    a, b = rng.randrange(1, 3), rng.randrange(1, 3); p = params(rng); st = rng.getstate(); out = []
    if p.get('plexp') is not None: p['plexp'] = abs(p['plexp'])
    for calls in ([a + b], [a, b]):
        rng.setstate(st); g, d = gen(rng, maxlevel=2)
        for n in calls: y = g.generate(n, **p)
        out.append(y)
    note(**show(d), calls=[a, b], params=repr(p))
    relclose(out[1], out[0], tol=1e-6, what="field of a seeded generator in two calls")
if __name__ == "__main__": main()
