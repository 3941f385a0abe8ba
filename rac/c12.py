from common import *
from fluctref import *
@test(n=60)
def normalised_block(rng):
    g, d = gen(rng); p = params(rng); Nx, Ny, Nz = (int(x) for x in 2 ** d["levels"] + 1)
    n, m = rng.choice([Nx, 1, 4]), rng.choice([Ny, 1])
    b = np.random.randn(n, m, Nz, 3) * 10 ** rng.uniform(-6, 4)
    if rng.random() < .3: b *= 10 ** rng.uniform(-40, 20)
    if rng.random() < .3: b[..., rng.randrange(3)] = 0
    if rng.random() < .2: b[:] = 0; b[0, 0, 0, rng.randrange(3)] = rng.choice([1e-3, -1e5, 1e-13])
    note(**show(d), params=repr(p), shape=b.shape)
    ref = b / np.sqrt((b ** 2).mean()); ref[..., 0] += profile(p, np.arange(Nz) * d["D"][2] / (Nz - 1))
    close(g._normalize_block(b.copy(), **p), ref, rtol=1e-10, atol=1e-12, what="normalised block")
@test(n=25)
def generated_block(rng):
    g, d = gen(rng); p = params(rng); raw = []
    o = g._generate_block
    def rec():
        b = o(); raw.append(b.copy()); return b
    g._generate_block = rec
    k = rng.randrange(1, 3); y = g.generate(k, **p); note(**show(d), params=repr(p)); Nz = y.shape[2]
    ref = []
    for b in raw:
        r = b / np.sqrt((b ** 2).mean()); r[..., 0] += profile(p, np.arange(Nz) * d["D"][2] / (Nz - 1)); ref.append(r)
    close(y, np.concatenate(ref), rtol=1e-8, atol=1e-10, what="generated field")
@test(n=30)
def rejected(rng):
    g, d = gen(rng); p = params(rng); Nz = int(2 ** d["levels"][2] + 1); b = np.random.randn(3, 2, Nz, 3); q = dict(p)
    w = rng.choice(["zero", "empty", "name", "zref", "uref", "z0", "plexp"]); note(what=w, params=repr(p))
    if w == "zero": b[:] = 0
    elif w == "empty": b = b[:0]
    elif w == "name": q["windprofiletype"] = rng.choice(["log", "POWER", "", None])
    elif w == "plexp": q["windprofiletype"] = "PL"; q["plexp"] = None
    else: q[w] = rng.choice([0.0, -1.0, -1e-9])
    raises((ValueError, AssertionError, TypeError), g._normalize_block, b, **q)
if __name__ == "__main__": main()
