from common import *
import numpy as np, torch
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
torch.set_default_dtype(torch.float64)
KEYS = ("mse", "coherence", "pen1", "pen2", "regularization")
def setup(rng):
    n = rng.randrange(3, 9); zref = 10 ** rng.uniform(-1, 2); k1 = np.sort(10 ** np.random.uniform(-2, 2, n))
    W = {w: rng.choice([0.0, rng.uniform(0, 2), 1e-3]) for w in ("alpha_pen1", "alpha_pen2", "beta_reg", "gamma_coherence")}
    return LossAggregator(LossParameters(**W), torch.tensor(k1), zref, "tb"), W, k1, zref
def reference(W, k1, zref, y, t, th, cd):
    r = dict.fromkeys(KEYS, 0.0)
    r["mse"] = float(np.mean(np.log(np.abs(y / t)) ** 2))
    lk = np.log(k1); s = np.diff(np.log(np.abs(y)), axis=-1) / np.diff(lk)
    c = np.diff(s, axis=-1) / np.diff(.5 * (lk[1:] + lk[:-1]))
    r["pen1"] = W["alpha_pen1"] * np.mean(np.maximum(s, 0) ** 2) / zref
    r["pen2"] = W["alpha_pen2"] * np.mean(np.maximum(c, 0) ** 2) / zref ** 2
    if th is not None: r["regularization"] = W["beta_reg"] * np.mean(th ** 2)
    if cd is not None: r["coherence"] = W["gamma_coherence"] * sum(np.mean((cd["model_" + x] - cd["data_" + x]) ** 2) for x in "uvw") / 3
    return r
def batch(rng, k1):
    C = rng.choice([3, 4, 6]); f = lambda: 10 ** np.random.uniform(-3, 2, (C, len(k1))) * np.random.choice([-1, 1], (C, len(k1)))
    y, t = f(), f(); th = np.random.randn(rng.randrange(1, 9)) if rng.random() < .7 else None
    cd = None
    if rng.random() < .6:
        sh = (rng.randrange(1, 4), rng.randrange(1, 5)); cd = {a + "_" + x: np.random.rand(*sh) for a in ("model", "data") for x in "uvw"}
    return y, t, th, cd
def T(x): return None if x is None else torch.tensor(x)
@test(n=60)
def loss_and_histories(rng):
    a, W, k1, zref = setup(rng); avg = None; hist = {k: [] for k in KEYS + ("total",)}
    for ep in range(rng.randrange(1, 6)):
        y, t, th, cd = batch(rng, k1)
        if rng.random() < .25: t = y.copy()   # a perfect fit: the term is exactly zero
        note(W=W, epoch=ep, theta=th is not None, coh=cd is not None)
        kw = {}
        if cd is not None or rng.random() < .5:
            kw["coherence_data"] = None if cd is None else {k: (T(v) if k.startswith("model") or ep % 2 else v) for k, v in cd.items()}
        tot = a.eval(T(y), T(t), T(th), rng.choice([ep, ep + 3]), **kw)
        r = reference(W, k1, zref, y, t, th, cd); s = sum(r.values())
        close(float(tot), s, rtol=1e-9, atol=1e-12, what="loss")
        assert float(tot) >= 0
        avg = dict(r) if avg is None else {k: .9 * avg[k] + .1 * r[k] for k in KEYS}
        for k in KEYS: hist[k].append(r[k])
        hist["total"].append(s)
        assert set(a.component_losses) == set(hist), "recorded histories %s" % sorted(a.component_losses)
        for k in hist: close(np.array(a.component_losses[k], dtype=float), np.array(hist[k]), rtol=1e-9, atol=1e-12, what="history " + k)
        for k in KEYS: close(float(a.running_averages[k]), avg[k], rtol=1e-9, atol=1e-12, what="running average " + k)
@test(n=40)
def nan_raises(rng):
    a, W, k1, zref = setup(rng)
    y, t, th, cd = batch(rng, k1)
    if rng.random() < .6: a.eval(T(y), T(t), T(th), 0, coherence_data=None if cd is None else {k: T(v) for k, v in cd.items()})
    old = {k: list(v) for k, v in a.component_losses.items()}; av = dict(a.running_averages)
    what = rng.choice(["y", "t", "theta", "coh"])
    if what == "theta" and (th is None or not W["beta_reg"]): what = "y"
    if what == "coh" and (cd is None or not W["gamma_coherence"]): what = "t"
    def poison(x): x.flat[rng.randrange(x.size)] = np.nan
    poison(y if what == "y" else t if what == "t" else th if what == "theta" else cd[rng.choice(sorted(cd))])
    note(W=W, nan=what)
    raises(ValueError, a.eval, T(y), T(t), T(th), 1, coherence_data=None if cd is None else {k: T(v) for k, v in cd.items()})
    assert old == {k: list(v) for k, v in a.component_losses.items()} and av == a.running_averages, "a NaN evaluation was recorded"
if __name__ == "__main__": main()
