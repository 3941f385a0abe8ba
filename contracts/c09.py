from spec import *
from pyvc import shims
LOSS = "drdmannturb.spectra_fitting.loss_functions"; PAR = "drdmannturb.parameters"
KEYS = ("mse", "coherence", "pen1", "pen2", "regularization")
def mean(f, *dims):
    """mean of f over a box of the given extents"""
    ix = [fresh("m", "I") for _ in dims]
    r = f(*ix)
    for i, d in list(zip(ix, dims))[::-1]: r = sum_(i, d, r)
    return div(r, mul(*dims))
def relu(x): return max_(x, ZERO)
def log_(x): return app("log", x)
def contract(chk):
    M = chk.load(LOSS); P = chk.load(PAR)
    chk.fn("loss_functions.LossAggregator.__init__", "loss_functions.LossAggregator.eval", "loss_functions.LossAggregator.MSE_term", "loss_functions.LossAggregator.Pen1stOrder", "loss_functions.LossAggregator.Pen2ndOrder", "loss_functions.LossAggregator.Regularization", "loss_functions.LossAggregator.CoherenceLoss", "loss_functions.LossAggregator.update_running_averages", "loss_functions.LossAggregator.log_component_ratios")
    chk.trust("torch.mean, diff, log, abs, relu, square per documentation", "tensorboard writer has no effect on the loss")
    def terms(w, C, n, zref, coh, theta):
        y = lambda c, i: uf("y", c, i); t = lambda c, i: uf("t", c, i); k = lambda i: log_(uf("k1", i)); ly = lambda c, i: log_(app("abs", y(c, i)))
        slope = lambda c, i: div(sub(ly(c, add(i, ONE)), ly(c, i)), sub(k(add(i, ONE)), k(i)))
        mid = lambda i: div(add(k(i), k(add(i, ONE))), q(2))
        curv = lambda c, i: div(sub(slope(c, add(i, ONE)), slope(c, i)), sub(mid(add(i, ONE)), mid(i)))
        out = {"mse": mean(lambda c, i: sq(log_(app("abs", div(y(c, i), t(c, i))))), C, n)}
        out["pen1"] = div(mul(w["alpha_pen1"], mean(lambda c, i: sq(relu(slope(c, i))), C, sub(n, ONE))), zref)
        out["pen2"] = div(mul(w["alpha_pen2"], mean(lambda c, i: sq(relu(curv(c, i))), C, sub(n, q(2)))), sq(zref))
        if theta is not None: out["regularization"] = mul(w["beta_reg"], mean(lambda i: sq(uf("theta", i)), theta))
        if coh is not None: out["coherence"] = mul(w["gamma_coherence"], div(add(*[mean(lambda a, b: sq(sub(uf("m" + x, a, b), uf("d" + x, a, b))), *coh) for x in "uvw"]), q(3)))
        return out
    WN = {"coherence": "gamma_coherence", "pen1": "alpha_pen1", "pen2": "alpha_pen2", "regularization": "beta_reg"}
    def setup(on, first, coh=True, theta=True, npdata=False):
        numev.declare("k1", "pos")
        C, n = nat("C"), nat("n", 3); zref = pos("zref")
        W = {}
        for v in WN.values():
            x = real(v); ctx.assume(gt(x.v, ZERO) if v in on else eq(x.v, ZERO)); W[v] = x
        a = M.LossAggregator(P.LossParameters(**W), arr("k1", n, lib="t"), zref, None)
        h = nat("h", 0); ctx.assume(eq(h.v, ZERO) if first else gt(h.v, ZERO))
        old = {}
        if not first:
            for key in KEYS + ("total",): a.component_losses[key] = SList(h.v, lambda i, key=key: S(uf("hist_" + key, i), "f"))
            for key in KEYS: old[key] = var("avg_" + key); a.running_averages[key] = S(old[key], "f")
        cd = None; cdim = None
        if coh:
            s, f = nat("ns"), nat("nf"); cdim = (s.v, f.v)
            cd = {"model_" + x: arr("m" + x, s, f, lib="t") for x in "uvw"}; cd.update({"data_" + x: arr("d" + x, s, f, lib="np" if npdata else "t") for x in "uvw"})
        th = arr("theta", nat("nt"), lib="t") if theta else None
        T = terms({k: v.v for k, v in W.items()}, C.v, n.v, zref.v, cdim, th.shape_[0] if theta else None)
        for v, key in ((v, k) for k, v in WN.items()):
            if v not in on or key not in T: T[key] = ZERO
        return a, C, n, cd, th, T, h, old
    def go(on, first, coh=True, theta=True, npdata=False):
        box = {}
        def body():
            a, C, n, cd, th, T, h, old = setup(on, first, coh, theta, npdata); box["T"] = T
            total = a.eval(arr("y", C, n, lib="t"), arr("t", C, n, lib="t"), th, nat("epoch", 0), **({"coherence_data": cd} if coh else {}))
            tot = add(*[T[k] for k in KEYS])
            same("loss is the sum of the enabled terms", S(E_(total)), S(tot))
            concrete("recorded histories", set(a.component_losses) == set(KEYS + ("total",)) and set(a.running_averages) == set(KEYS))
            for key in KEYS + ("total",):
                l = a.component_losses[key]; want = T[key] if key != "total" else tot
                ln = l.n if isinstance(l, SList) else const(len(l))
                same("history %s grows by exactly one entry" % key, S(ln), S(add(h.v, ONE)))
                same("history %s records the term" % key, l[-1], S(want))
                if not first:
                    (i,) = index(h); same("history %s keeps earlier entries" % key, l[S(i)], S(uf("hist_" + key, i)))
                if key != "total": same("running average %s" % key, S(E_(a.running_averages[key])), S(want if first else add(mul(q(9, 10), old[key]), mul(q(1, 10), want))))
        def nan_only(exc, p):
            if not isinstance(exc, ValueError): return None
            return [or_(*[app("isnan", t) if t.nan else FALSE for t in box["T"].values()])]
        nm = "terms {%s}%s%s%s, %s evaluation" % (",".join(sorted(on)), "" if coh else ", no coherence data", "" if theta else ", no network", ", numpy coherence data" if npdata else "", "first" if first else "later")
        chk.case(nm, body, raises=nan_only)
    ALLW = tuple(WN.values())
    for first in (True, False):
        go(ALLW, first); go((), first)
        for w in ALLW: go((w,), first)
    go(ALLW, False, npdata=True); go(ALLW, False, coh=False); go(ALLW, False, theta=False)
    def nonneg():
        C, n = nat("C").v, nat("n", 3).v; numev.declare("k1", "pos")
        # the squared quantities are arbitrary reals, so each term is non-negative for every finite input
        w = {v: pos(v).v for v in ALLW}; z = pos("zref").v
        for nm, t in (("mse", mean(lambda c, i: sq(uf("x", c, i)), C, n)), ("pen1", div(mul(w["alpha_pen1"], mean(lambda c, i: sq(relu(uf("x", c, i))), C, sub(n, ONE))), z)), ("pen2", div(mul(w["alpha_pen2"], mean(lambda c, i: sq(relu(uf("x", c, i))), C, sub(n, q(2)))), sq(z))),
                      ("regularization", mul(w["beta_reg"], mean(lambda i: sq(uf("th", i)), n))), ("coherence", mul(w["gamma_coherence"], div(add(*[mean(lambda a, b: sq(uf("e" + x, a, b)), C, n) for x in "uvw"]), q(3))))):
            holds("term %s >= 0" % nm, ge(t, ZERO))
    chk.case("lemma: terms are non-negative", nonneg)
    def nanraises():
        """a NaN term is not recorded: it raises before any history grows"""
        a, C, n, cd, th, T, h, old = setup(ALLW, False)
        try: a.eval(arr("y", C, n, lib="t"), arr("t", C, n, lib="t"), th, nat("epoch", 0), coherence_data=cd)
        except ValueError:
            for key in KEYS + ("total",): same("history %s unchanged when a term is NaN" % key, S(a.component_losses[key].n), S(h.v))
            for key in KEYS: same("running average %s unchanged when a term is NaN" % key, S(E_(a.running_averages[key])), S(old[key]))
            return
        for key, t in T.items():
            if t.nan: holds("recorded term %s is not NaN" % key, not_(app("isnan", t)))
    chk.case("NaN raises", nanraises)
if __name__ == "__main__": main("C09", contract)
