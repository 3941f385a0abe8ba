from spec import *
from lowspec import bare
LOSS = "drdmannturb.spectra_fitting.loss_functions"
KEYS = ("mse", "coherence", "pen1", "pen2", "regularization")
def contract(chk):
    M = chk.load(LOSS)
    chk.fn("loss_functions.LossAggregator.get_loss_diagnostics", "loss_functions.LossAggregator.should_adjust_learning_rate", "loss_functions.LossAggregator.get_current_loss_info")
    chk.trust("Python list slicing, sum, max and min per language reference")
    def agg(h):
        a = bare(M.LossAggregator)
        a.component_losses = {k: SList(h, lambda i, k=k: S(uf("hist_" + k, i), "f")) for k in KEYS + ("total",)}
        a.running_averages = {k: S(var("avg_" + k), "f") for k in KEYS}
        return a
    def stats(h, w):
        win = lambda k: (lambda j: uf("hist_" + k, add(sub(h, w), j)))
        def mean_of(f, n):
            j = fresh("j", "I"); return div(sum_(j, n, f(j)), n)
        mean = {k: mean_of(win(k), w) for k in KEYS + ("total",)}
        std = {k: sqrt(mean_of(lambda j, k=k: sq(sub(win(k)(j), mean[k])), w)) for k in mean}
        c = vfdiv(w, const(2)); t = win("total")
        early = mean_of(t, c); late = mean_of(lambda j: t(add(c, j)), sub(w, c))
        imp = div(sub(early, late), max_(early, q(1, 10 ** 8)))
        stab = div(ONE, add(ONE, std["total"]))
        big = small = mean[KEYS[0]]
        for k in KEYS[1:]: big = max_(big, mean[k]); small = min_(small, mean[k])
        return mean, std, imp, stab, div(big, max_(small, q(1, 10 ** 8))), big
    def unchanged(a, h, keep):
        concrete("no history is added or removed", set(a.component_losses) == set(KEYS + ("total",)))
        (i,) = index(S(h))
        for k in KEYS + ("total",):
            l = a.component_losses[k]; concrete("history %s is the same list" % k, l is keep[k])
            same("history %s keeps its length" % k, S(l.n), S(h)); same("history %s keeps its entries" % k, l.get(i), S(uf("hist_" + k, i)))
        for k in KEYS: same("running average %s unchanged" % k, a.running_averages[k], S(var("avg_" + k)))
    def diagnostics():
        h, w = nat("h").v, nat("w", 2).v; a = agg(h); keep = dict(a.component_losses)
        d = a.get_loss_diagnostics(S(w))
        if d == {}: holds("no diagnostics only before a full window is recorded", lt(h, w)); return
        holds("diagnostics only after a full window", ge(h, w))
        mean, std, imp, stab, dom, big = stats(h, w)
        for k in mean: same("mean of %s over the last window" % k, d[k + "_mean"], S(mean[k])); same("standard deviation of %s over the last window" % k, d[k + "_std"], S(std[k]))
        same("improvement", d["improvement_ratio"], S(imp)); same("stability", d["stability"], S(stab)); same("dominance ratio", d["dominance_ratio"], S(dom))
        concrete("dominant component is one of the components", d["dominant_component"] in KEYS)
        if d["dominant_component"] in KEYS: same("dominant component has the largest mean", S(mean[d["dominant_component"]]), S(big))
        unchanged(a, h, keep)
    chk.case("diagnostics", diagnostics)
    def window(w): 
        def body():
            h = nat("h").v; ep = nat("epoch", 0).v; advice(h, const(w), ep)
        return body
    def advice(h, w, ep):
        a = agg(h); keep = dict(a.component_losses)
        r = a.should_adjust_learning_rate(S(ep), S(w))
        unchanged(a, h, keep)
        mean, std, imp, stab, dom, big = stats(h, w)
        full = and_(ge(ep, w), ge(h, w)); stag = lt(imp, q(1, 100)); unst = lt(stab, q(3, 10)); domi = gt(dom, q(100))
        if r["adjust"] is False:
            holds("no adjustment only when there is too little data or nothing is wrong", or_(not_(full), and_(not_(stag), not_(unst), not_(domi))))
            concrete("no factor without an adjustment", "factor" not in r); return
        concrete("adjust is a truth value", r["adjust"] is True)
        holds("adjustment only after a full window", full)
        concrete("known reason", r["reason"] in ("stagnation", "instability", "component_dominance"))
        f = r["factor"]; holds("factor above 0", gt(E_(f), ZERO)); holds("factor below 1", lt(E_(f), ONE))
        if r["reason"] == "stagnation": same("factor for stagnation", f, S(q(1, 2))); holds("stagnation exactly when the improvement is below 1 %", stag)
        elif r["reason"] == "instability": same("factor for instability", f, S(q(3, 10))); holds("instability only without stagnation", not_(stag)); holds("instability when the stability is below 0.3", unst)
        elif r["reason"] == "component_dominance":
            same("factor for dominance", f, S(q(7, 10))); holds("dominance only without stagnation", not_(stag)); holds("dominance only without instability", not_(unst)); holds("dominance when the ratio exceeds 100", domi)
            concrete("dominant component is one of the components", r["dominant"] in KEYS)
            if r["dominant"] in KEYS: same("dominant component has the largest mean", S(mean[r["dominant"]]), S(big))
    def any_window(): advice(nat("h").v, nat("w", 2).v, nat("epoch", 0).v)
    chk.case("advice", any_window)
    def info():
        h = nat("h").v; a = agg(h); keep = dict(a.component_losses); d = a.get_current_loss_info()
        last = sub(h, ONE)
        for k in ("mse", "coherence", "total"): same("current " + k, d[k + "_current"], S(uf("hist_" + k, last)))
        for k in ("mse", "coherence"): same("average " + k, d[k + "_avg"], S(var("avg_" + k)))
        same("ratio", d["mse_coherence_ratio"], S(div(var("avg_mse"), max_(var("avg_coherence"), q(1, 10 ** 8)))))
        unchanged(a, h, keep)
    chk.case("current losses", info)
    def empty():
        a = bare(M.LossAggregator); a.component_losses = {k: PList([]) for k in KEYS + ("total",)}; a.running_averages = {k: 0.0 for k in KEYS}
        concrete("nothing recorded, nothing reported", a.get_current_loss_info() == {}); concrete("no advice", a.should_adjust_learning_rate(S(nat("epoch", 0).v), S(nat("w", 2).v))["adjust"] is False)
    chk.case("nothing recorded", empty)
if __name__ == "__main__": main("C21", contract)
