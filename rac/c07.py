from common import *
from opsref import *
import opsref
def cgrid(o, d):
    I = d["I"]; return grid(I.coh_log_min, I.coh_log_max, I.coh_num_points) / d["L"]
def S(rng): return [rng.choice([0.0, rng.uniform(-20, 20), 10 ** rng.uniform(-3, 3)]) for _ in range(rng.randrange(1, 5))]
def K(rng, n=None): 
    k = ks(rng, n); 
    return k
@test(n=40)
def formula(rng):
    o, d = build(rng, coherence=True); k1 = ks(rng); seps = S(rng); note(k1=k1.tolist(), seps=seps, **{k: repr(v) for k, v in d.items()})
    y = o.SpectralCoherence(torch.tensor(k1), torch.tensor(seps)).detach().numpy()
    assert y.shape == (3, len(seps), len(k1)), "shape %s" % (y.shape,)
    close(y, coherence(o, d, k1, seps, cgrid(o, d)), rtol=1e-6, atol=1e-9, what="coherence")
@test(n=30)
def bounds_and_symmetry(rng):
    o, d = build(rng, coherence=rng.random() < .8); k1 = ks(rng); seps = [0.0] + S(rng); note(k1=k1.tolist(), seps=seps, **{k: repr(v) for k, v in d.items()})
    f = lambda k, r: o.SpectralCoherence(torch.tensor(k), torch.tensor(r)).detach().numpy()
    y = f(k1, seps)
    assert np.isfinite(y).all() and (y >= 0).all() and (y <= 1 + 1e-9).all(), "coherence outside [0,1]: %r %r" % (y.min(), y.max())
    close(y[:, 0], np.ones_like(y[:, 0]), rtol=1e-9, what="coherence at zero separation")
    close(f(k1, [-r for r in seps]), y, rtol=1e-7, atol=1e-12, what="sign of the separation")
    p = list(range(len(seps))); rng.shuffle(p); q = list(range(len(k1))); rng.shuffle(q)
    close(f(k1[q], [seps[i] for i in p]), y[:, p][:, :, q], rtol=1e-7, atol=1e-12, what="reordered separations and wavenumbers")
    close(f(k1[:1], seps[-1:]), y[:, -1:, :1], rtol=1e-7, atol=1e-12, what="single entry")
@test(n=10)
def history(rng):
    o, d = build(rng, coherence=True); k1 = ks(rng); seps = S(rng); note(k1=k1.tolist(), seps=seps, **{k: repr(v) for k, v in d.items()})
    o(torch.tensor(ks(rng))); o.SpectralCoherence(torch.tensor(ks(rng)), torch.tensor(S(rng)))
    with torch.no_grad():
        for p in o.parameters(): p.add_(torch.randn(p.shape) * 0.1)
    y = o.SpectralCoherence(torch.tensor(k1), torch.tensor(seps)).detach().numpy()
    close(y, coherence(o, d, k1, seps, cgrid(o, d)), rtol=1e-6, atol=1e-9, what="coherence after earlier evaluations")
if __name__ == "__main__": main()
