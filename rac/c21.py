from common import *
import copy, statistics as st
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
KEYS = ("mse", "coherence", "pen1", "pen2", "regularization")
def agg(rng, h):
    a = LossAggregator.__new__(LossAggregator); kind = rng.choice(["flat", "falling", "rising", "noisy", "oscillating", "slow"])
    scale = 10 ** rng.uniform(-2, 2); L = {}
    for k in KEYS:
        s = 0.0 if rng.random() < .25 else scale * 10 ** rng.uniform(-1.3, 1.3)
        f = {"flat": lambda i: 1.0, "falling": lambda i: .9 ** i, "rising": lambda i: 1 + .1 * i, "noisy": lambda i: rng.uniform(0, 2), "oscillating": lambda i: 1 + (-1) ** i * .9, "slow": lambda i: 1 - .0005 * i}[kind]
        L[k] = [s * f(i) * rng.choice([1, 1, 1 + 1e-3 * rng.random()]) for i in range(h)]
    L["total"] = [sum(L[k][i] for k in KEYS) for i in range(h)]
    a.component_losses = L; a.running_averages = {k: rng.choice([0.0, rng.uniform(0, 3)]) for k in KEYS}
    note(kind=kind, length=h); return a
def reference(L, w):
    win = {k: v[-w:] for k, v in L.items()}; mean = {k: st.fmean(v) for k, v in win.items()}
    std = {k: (st.fmean([(x - mean[k]) ** 2 for x in v])) ** .5 for k, v in win.items()}
    e, l = st.fmean(win["total"][:w // 2]), st.fmean(win["total"][w // 2:])
    m = [mean[k] for k in KEYS]
    return mean, std, (e - l) / max(e, 1e-8), 1 / (1 + std["total"]), max(m) / max(min(m), 1e-8)
def near(x, t): return abs(x - t) < 1e-9 * max(1, abs(t))
@test(n=80)
def advice(rng):
    w = rng.choice([2, 3, 4, 5, 10, 50]); h = rng.choice([0, 1, w - 1, w, w, w + 1, w + rng.randrange(0, 40)]); ep = rng.choice([0, w - 1, w, h, h + 10])
    a = agg(rng, h); keep = copy.deepcopy((a.component_losses, a.running_averages)); note(window=w, epoch=ep)
    d = a.get_loss_diagnostics(w); r = a.should_adjust_learning_rate(ep, w) if rng.random() < .8 or w != 50 else a.should_adjust_learning_rate(ep)
    check((a.component_losses, a.running_averages) == keep, "recorded losses changed by asking for advice")
    if h < w: check(d == {}, "diagnostics before a full window"); check(r["adjust"] is False, "advice before a full window"); return
    mean, std, imp, stab, dom = reference(a.component_losses, w)
    for k in mean: close(d[k + "_mean"], mean[k], what="mean " + k); close(d[k + "_std"], std[k], rtol=1e-6, atol=1e-9 * (1 + abs(mean[k])), what="std " + k)
    close(d["improvement_ratio"], imp, atol=1e-9, what="improvement"); close(d["stability"], stab, rtol=1e-6, what="stability"); close(d["dominance_ratio"], dom, what="dominance")
    if ep < w: check(r["adjust"] is False, "advice before a full window of epochs"); return
    if near(imp, .01) or abs(stab - .3) < 1e-6 or near(dom, 100): raise Inconclusive
    want = ("stagnation", .5) if imp < .01 else ("instability", .3) if stab < .3 else ("component_dominance", .7) if dom > 100 else None
    if want is None: check(r["adjust"] is False, "advice for healthy training", r)
    else:
        check(r["adjust"] is True and r["factor"] == want[1] and 0 < r["factor"] < 1, "advice", r, want)
@test(n=20)
def info(rng):
    h = rng.choice([0, 1, 7]); a = agg(rng, h); keep = copy.deepcopy(a.component_losses); d = a.get_current_loss_info(); check(keep == a.component_losses, "recorded losses changed")
    if h == 0: check(d == {}, "nothing recorded"); return
    for k in ("mse", "coherence", "total"): check(d[k + "_current"] == a.component_losses[k][-1], "current " + k)
    for k in ("mse", "coherence"): check(d[k + "_avg"] == a.running_averages[k], "average " + k)
    close(d["mse_coherence_ratio"], a.running_averages["mse"] / max(a.running_averages["coherence"], 1e-8), what="ratio")
if __name__ == "__main__": main()
