from calspec import *
from tablespec import Table
from pyvc import loops
from pyvc.ctx import Unsupported, decide
PAIRS = ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))
def contract(chk):
    C = chk.load(CAL)
    chk.fn("calibration.CalibrationProblem.calibrate", "calibration.CalibrationProblem.calibrate.closure", "calibration.CalibrationProblem._compute_model_coherence", "calibration.CalibrationProblem.load_coherence_data", "calibration.CalibrationProblem.parameters (getter)", "calibration.CalibrationProblem.__init__")
    chk.trust("torch.optim.LBFGS/Adam.step(closure): calls the closure one or more times; the parameters may change arbitrarily before each call and afterwards; the state seen by the code after the last call is that of the last call",
              "torch.optim.lr_scheduler.CosineAnnealingLR.step may set any learning rate", "torch cat, view, zeros_like, parameters_to_vector per documentation",
              "the loss is represented by its contract (arbitrary value, possibly not finite; the learning-rate advice either does not adjust or adjusts by a factor in (0,1)), proved in C09 and C21; the model spectra and coherences by arbitrary functions of wavenumber, separation and current parameters (formulas proved in C05 and C07)")
    class Loss(SArr):
        """value of one evaluation of the loss"""
        def __init__(s, k):
            s.ok = var("finite%d" % k, "B"); v = ite(s.ok, var("loss%d" % k), ite(var("nan%d" % k, "B"), NAN, INF))
            SArr.__init__(s, (), lambda idx: v, "f", "t"); s.v = v; s.back = False
        def backward(s, *a, **k): s.back = True
    class Agg:
        """contract of the loss"""
        def __init__(s, params, k1space, zref, tb_log_dir=None, tb_comment=""): s.evals = []; s.params = params; s.k1space = k1space; s.zref = zref; Agg.made.append(s)
        def eval(s, y, y_data, theta_NN, epoch, coherence_data=None, **k):
            s.judge(y, y_data, theta_NN, coherence_data, not s.evals)
            s.evals.append(Loss(len(s.evals) + 1000 * Agg.phase)); return s.evals[-1]
        def should_adjust_learning_rate(s, epoch, window=50):
            if decide(var("adjust", "B")):
                f = S(var("factor"), "f"); ctx.assume(gt(f.v, ZERO)); ctx.assume(lt(f.v, ONE))
                return {"adjust": True, "reason": "stagnation", "suggestion": "reduce_lr", "factor": f}
            return {"adjust": False, "reason": "healthy_training"}
        def get_current_loss_info(s): return {k: S(var("info_" + k), "f") for k in ("mse_current", "coherence_current", "total_current", "mse_avg", "coherence_avg", "mse_coherence_ratio")}
    def first(p):
        g = p.getter(); return b2n(g(tuple(ZERO for _ in p.shape_)))
    def state(ops): return [first(p) for p in ops.parameters()]
    def calibrate(kind, learn, comps, coh=None, opt="LBFGS", beta=True):
        nep = nat("nep", 0)
        c, d = problem(chk, kind, learn, comps, nepochs=nep, **({"beta_reg": pos("beta"), "alpha_pen1": real("a1"), "gamma_coherence": real("gc")} if beta else {}))
        tol = c.prob_params.tol = real("tol"); ops = c.OPS; n = nat("n", 3); k1 = arr("k1", n, lib="t"); T = arr("T", n, 3, 3, lib="t"); numev.declare("k1", "pos")
        def forward(k):
            ops.exp_scales(); g = k.getter(); st = state(ops); return SArr((const(6),) + k.shape_, lambda idx: uf("spectrum", idx[0], b2n(g(idx[1:])), *st), "f", "t")
        def coherence(k, r):
            g, h = k.getter(), r.getter(); st = state(ops); return SArr((const(3), r.shape_[0], k.shape_[0]), lambda idx: uf("coherence", idx[0], b2n(g((idx[2],))), b2n(h((idx[1],))), *st), "f", "t")
        ops.__dict__["forward"] = forward; ops.__dict__["SpectralCoherence"] = coherence
        if coh:
            ns, nf = nat("ns"), nat("nf"); ctx.State.hooks["read_csv"] = lambda path, *a, **k: (concrete("the given coherence file is read", path == "data.dat"), Table(ns.v, nf.v, True, None))[1]
        class A(Agg):
            def judge(s, y, y_data, theta, cd, initial):
                tag = "initial evaluation: " if initial else ""
                if shape_is(tag + "model values", y, (const(comps), n)) and shape_is(tag + "data values", y_data, (const(comps), n)):
                    st = state(ops)
                    (i,) = index(n)
                    for m in range(comps):
                        same(tag + "model component %d%d at wavenumber i" % (PAIRS[m][0] + 1, PAIRS[m][1] + 1), S(y.elem((const(m), i))), S(uf("spectrum", const(m), uf("k1", i), *st)))
                        same(tag + "compared with data component %d%d at wavenumber i" % (PAIRS[m][0] + 1, PAIRS[m][1] + 1), S(y_data.elem((const(m), i))), S(uf("T", i, const(PAIRS[m][0]), const(PAIRS[m][1]))))
                if kind == "TAUNET":
                    want = shims.parameters_to_vector(ops.tauNet.parameters())
                    if shape_is(tag + "network parameters", theta, tuple(S(x) for x in want.shape_)):
                        (i,) = index(*[S(x) for x in want.shape_]); same(tag + "the network's current parameters", S(theta.elem((i,))), S(want.elem((i,))))
                else: concrete(tag + "no network, no parameters to regularise", theta is None)
                if initial: return
                if not coh: concrete("no coherence is compared without coherence data", not cd); return
                concrete("coherence is compared", bool(cd) and set(cd) == {a + "_" + b for a in ("model", "data") for b in "uvw"})
                st = state(ops); spread = lambda t: app("floor", div(mul(t, sub(ns.v, ONE)), const(3)))
                for m, nm in enumerate("uvw"):
                    md, dt = cd["model_" + nm], cd["data_" + nm]
                    if not (shape_is("model coherence " + nm, md, (const(4), nf)) and shape_is("measured coherence " + nm, dt, (const(4), nf))): continue
                    (f,) = index(nf)
                    for t in range(4):
                        fr = uf("FREQ", f); kf = div(mul(E_(c.phys_params.wavenumber_conversion_factor), fr), var("Uref"))
                        same("model coherence %s at separation %d, frequency f" % (nm, t), S(md.elem((const(t), f))), S(ite(gt(fr, q(1, 10 ** 6)), uf("coherence", const(m), kf, uf("SEP", spread(const(t))), *st), ONE)))
                        same("compared with measured coherence %s at separation %d, frequency f" % (nm, t), S(dt.elem((const(t), f))), S(uf("coh_" + nm, spread(const(t)), f)))
        Agg.made = []; Agg.phase = 0
        class Inv(loops.LoopSpec):
            """the loss is finite after every completed epoch; everything the optimiser controls is arbitrary"""
            where = "before"
            @property
            def keep(s): return ()
            def arbitrary(s, it):
                Agg.phase += 1; shims.havoc_params([p for p in ops.parameters()])
                for o in [x[1] for x in shims.W.calls if x[0] == "optimizer"]:
                    for g in o.param_groups: g["lr"] = S(var("lr_any"), "f")
                l = Loss(1000 * Agg.phase + 999); ctx.assume(or_(eq(it, ONE), l.ok)); c.loss = l; c.e_count = S(nat("evaluations", 1).v); Agg.made[-1].evals.append(l)
            def havoc(s, it, vars): s.where = "step"; s.it = it; s.arbitrary(it)
            def preserve(s, it, vars): l = Agg.made[-1].evals[-1]; concrete("every epoch evaluates the loss and its gradient", l.back); holds("calibration continues only while the loss is finite", app("isfinite", l.v) if l.v.nan else TRUE)
            def exit(s, hi, vars): s.where = "exit"; s.arbitrary(hi)
        inv = Inv(); loops.SPECS.append(("nep", inv)); keep = C.LossAggregator; C.LossAggregator = A
        try:
            r = c.calibrate({"k1": k1, "ops": T}, **({"coherence_data_file": "data.dat"} if coh else {}), **({"optimizer_class": object} if opt != "LBFGS" else {}))
        except RuntimeError as e:
            holds("an error is raised only when the loss is not finite", not_(app("isfinite", Agg.made[-1].evals[-1].v))); return
        finally: C.LossAggregator = keep; loops.SPECS.clear()
        a = Agg.made[-1]; concrete("one loss per calibration, with the given settings", len(Agg.made) == 1 and a.params is c.loss_params); same("reference height of the loss", S(E_(a.zref)), S(var("zref")))
        if inv.where == "step":
            l = a.evals[-1]; holds("calibration ends early only with a finite loss", app("isfinite", l.v)); holds("calibration ends early only when the loss is below the tolerance", lt(l.v, tol.v))
        concrete("calibration ends in the epoch loop or after the last epoch", inv.where in ("step", "exit"))
        p = c.parameters; g = lambda j: b2n(p.elem((const(j),)))
        concrete("reported parameters", set(r) == {"L", "Γ", "σ"} | ({"p", "q"} if learn else set()) and c.calibrated_params is r)
        for j, nm in enumerate(("L", "Γ", "σ")): same("reported %s is the exponential of the final log-scale" % nm, S(E_(r[nm])), S(app("exp", g(j))))
        for x, y in zip(("L", "Γ", "σ"), (ops.logLengthScale, ops.logTimeScale, ops.logMagnitude)): same("reported %s is the model's own scale" % x, S(E_(r[x])), S(app("exp", first(y))))
        if learn:
            for j, nm in enumerate("pq"): same("reported %s is the final exponent" % nm, S(E_(r[nm])), S(g(3 + j)))
            for x, y in zip("pq", (ops.p_exponent, ops.q_exponent)): same("reported %s is the model's own exponent" % x, S(E_(r[x])), S(first(y)))
    KINDS = ("TAUNET", "CONST", "MANN", "TWOTHIRD", "MANN_APPROX")
    for kind in KINDS:
        for learn in (False, True):
            for comps in (3, 4, 6): chk.case("%s, %d components%s" % (kind, comps, ", learnable spectrum" if learn else ""), lambda kind=kind, learn=learn, comps=comps: calibrate(kind, learn, comps))
    for kind in ("TAUNET", "MANN"): chk.case("%s, other optimiser" % kind, lambda kind=kind: calibrate(kind, False, 4, opt="Adam"))
    for kind in KINDS:
        for comps in (3, 4, 6): chk.case("%s, %d components, with coherence data" % (kind, comps), lambda kind=kind, comps=comps: calibrate(kind, comps == 4, comps, coh=True))
if __name__ == "__main__": main("C10", contract)
