from opsspec import *
from pyvc import shims, loops
NNM = "drdmannturb.nn_modules"
def relu(x): return ite(lt(x, ZERO), ZERO, x) if False else app_relu(x)
def app_relu(x): return max_(x, ZERO)
def rational(r, nu): return div(app("rpow", r, sub(nu, q(2, 3))), app("rpow", add(ONE, sq(r)), div(nu, q(2))))
def contract(chk):
    chk.fn("one_point_spectra.OnePointSpectra.__init__", "one_point_spectra.OnePointSpectra.EddyLifetime", "one_point_spectra.OnePointSpectra.exp_scales", "one_point_spectra.OnePointSpectra.InitialGuess_EddyLifetime", "one_point_spectra.OnePointSpectra.init_mann_approximation", "common.MannEddyLifetime", "common.Mann_linear_exponential_approx", "nn_modules.TauNet.__init__", "nn_modules.TauNet._mlp_forward", "nn_modules.TauNet.forward", "nn_modules.Rational.forward")
    chk.trust("torch.nn.Linear is multiplication by its weight matrix, ReLU is max(x,0); torch.norm, pow, where per documentation", "scipy.special.hyp2f1(1/3,17/6,4/3,x) > 0 for x <= 0", "sklearn LinearRegression is a function of the points it is fitted to")
    O = chk.load(OPS)
    def wave(flip=None):
        n = nat("n")
        sg = [neg(ONE) if flip == c else ONE for c in range(3)]
        k = SArr((n.v, const(3)), lambda ix: uf("kv", *ix), "f", "t")
        (i,) = index(n)
        kv = [uf("kv", i, const(c)) for c in range(3)]
        return n, k, i, kv
    def flipped(k, c):
        g = k.getter()
        return SArr(k.shape_, lambda ix: ite(eq(ix[-1], const(c)), neg(b2n(g(ix))), b2n(g(ix))), "f", "t")
    def law(kind, stale=False):
        o, d = build(chk, kind)
        if stale:
            # evaluated before; the parameters have been changed since
            o.exp_scales(); l, t = real("l_new"), real("t_new"); o.logLengthScale.data = l; o.logTimeScale.data = t
            d = dict(d, L=app("exp", l.v), G=app("exp", t.v))
        n, k, i, kv = wave(); ctx.assume(gt(add(*[sq(x) for x in kv]), ZERO))
        t = o.EddyLifetime(k)
        if not shape_is("lifetime", t, (n,)): return
        same("lifetime is the documented law", S(t.elem((i,))), S(lifetime(kind, kv, d["L"], d["G"])))
        holds("lifetime >= 0", ge(E_(S(t.elem((i,)))), ZERO))
        for c in range(3): same("even in k%d" % (c + 1), S(t.elem((i,))), S(o.EddyLifetime(flipped(k, c)).elem((i,))))
    for kind in ("CONST", "TWOTHIRD", "MANN"): chk.case(kind, lambda kind=kind: law(kind))
    for kind in ("CONST", "TWOTHIRD", "MANN"): chk.case("%s, after the parameters have changed" % kind, lambda kind=kind: law(kind, True))
    def approx():
        o, d = build(chk, "MANN_APPROX")
        n, k, i, kv = wave(); kk = add(*[sq(x) for x in kv]); ctx.assume(gt(kk, ZERO))
        t = o.EddyLifetime(k)
        if not shape_is("lifetime", t, (n,)): return
        # alpha, beta: the regression coefficients; whatever they are they may depend on nothing but the non-dimensional Mann law
        c, b = E_(S(o.tau_approx_coeff_.elem((ZERO,)))), E_(S(o.tau_approx_intercept_.elem((ZERO,))))
        concrete("the regression does not involve the model's scales", not ((c.fv | b.fv) & {"L", "Gamma", "sigma"}))
        same("lifetime is Gamma exp(alpha ln kL + beta)", S(t.elem((i,))), S(mul(d["G"], app("exp", add(mul(c, app("log", mul(d["L"], sqrt(kk)))), b)))))
        holds("lifetime >= 0", ge(E_(S(t.elem((i,)))), ZERO))
        for cc in range(3): same("even in k%d" % (cc + 1), S(t.elem((i,))), S(o.EddyLifetime(flipped(k, cc)).elem((i,))))
    chk.case("exponential approximation", approx)
    def outer_net():
        """the network variant around the network: Gamma * net(k L)"""
        o, d = build(chk, "TAUNET"); n, k, i, kv = wave()
        t = o.EddyLifetime(k)
        if not shape_is("lifetime", t, (n,)): return
        same("lifetime is Gamma net(kL)", S(t.elem((i,))), S(lifetime("TAUNET", kv, d["L"], d["G"])))
    chk.case("network variant, any network", outer_net)
    def mlp(W, x, w):
        """W: list of weight names, w: widths; returns the three outputs of the multi-layer perceptron"""
        h = lambda j: x[int(j.args[0])] if j.op == "const" else ite(eq(j, ZERO), x[0], ite(eq(j, ONE), x[1], x[2]))
        width = const(3)
        for l, nm in enumerate(W):
            def g(j, h=h, width=width, nm=nm):
                if width.op == "const": return add(*[mul(nm((j, const(s))), h(const(s))) for s in range(int(width.args[0]))])
                s = fresh("t", "I"); return sum_(s, width, mul(h(s), nm((j, s))))
            h = (lambda j, g=g: max_(g(j), ZERO)) if l < len(W) - 1 else g
            if l < len(W) - 1: width = w[l]
        return [h(const(c)) for c in range(3)]
    def net(depth, learn_nu):
        N = chk.load(NNM)
        w = [nat("w%d" % a) for a in range(depth)]
        t = N.TauNet(depth, PList(w), learn_nu=learn_nu, nu_init=real("nu"))
        if len(t.linears) != depth + 1: concrete("depth + 1 linear layers", False); return
        n, k, i, kv = wave()
        y = t(k)
        if not shape_is("tau", y, (n,)): return
        nu = E_(t.Ra.nu)
        x = [app("abs", a) for a in kv]
        a = [add(p, r) for p, r in zip(x, mlp([l.weight.getter() for l in t.linears], x, [z.v for z in w]))]
        kk = add(*[sq(z) for z in a]); ctx.assume(gt(kk, ZERO))
        same("network lifetime is the rational kernel of |kL + NN(kL)|", S(y.elem((i,))), S(rational(sqrt(kk), nu)))
        if learn_nu is False: same("exponent", S(nu), S(var("nu")))
        holds("network lifetime >= 0", ge(E_(S(y.elem((i,)))), ZERO))
    for depth in (1, 2):
        for ln in (False, True): chk.case("network of depth %d, any widths and weights, %s nu" % (depth, "learned" if ln else "fixed"), lambda depth=depth, ln=ln: net(depth, ln))
    # ---- any depth: invariant of the layer loop
    class AbsLayer:
        """layer number i: an arbitrary function of its input row"""
        def __init__(s, i, wout): s.i = i; s.wout = wout
        def __call__(s, x):
            g = x.getter(); w = x.shape_[-1]
            def el(idx):
                bv = fresh("g", "I"); return uf("layer", s.i, lam([bv], b2n(g(idx[:-1] + (bv,)))), w, idx[-1])
            return SArr(x.shape_[:-1] + (s.wout,), el, "f", "t")
    class AbsAct:
        def __init__(s, i): s.i = i
        def __call__(s, x):
            g = x.getter(); return SArr(x.shape_, lambda idx: uf("act", s.i, b2n(g(idx))), "f", "t")
    def anydepth(kind):
        N = chk.load(NNM)
        t = N.TauNet(1, 1, learn_nu=False, nu_init=real("nu"))
        m = nat("depth"); width = lambda i: uf("width", i, sort="I") if i is not ZERO else const(3)
        class Layers(SList): pass
        mid = SList(m.v, lambda i: AbsLayer(i, uf("width", add(i, ONE), sort="I"))); last = AbsLayer(const(-1), const(3))
        class Lin:
            def __getitem__(s, k):
                if isinstance(k, slice):
                    if k.start is None and k.step is None and isinstance(k.stop, (int, S)) and int(k.stop) == -1: return mid
                    raise Unsupported("slice of the layer list")
                if isinstance(k, (int, S)) and not (isinstance(k, S) and k.v.op != "const") and int(k) == -1: return last
                raise Unsupported("index into the layer list")
        t.__dict__["_modules"].pop("linears", None); t.__dict__["linears"] = Lin(); t.__dict__["activations"] = SList(m.v, lambda i: AbsAct(i))
        n, k, i, kv = wave()
        g = k.getter()
        absrow = lambda idx: [app("abs", b2n(g(idx[:-1] + (const(c),)))) for c in range(3)]
        H = lambda l, wd: SArr((n.v, wd), lambda idx: uf("H", l, *absrow(idx), idx[-1]), "f", "t")
        class Inv(loops.LoopSpec):
            def carried(s, vars):
                if not hasattr(s, "nm"):
                    c = [nm for nm, (gt_, st) in vars.items() if isinstance(loops.getv(gt_), SArr)]
                    if len(c) != 1: raise Unsupported("the layer loop carries %d arrays" % len(c))
                    s.nm = c[0]
                return vars[s.nm]
            def establish(s, lo, vars):
                x = s.carried(vars)[0]()
                if shape_is("loop entry", x, (n, 3)):
                    a, b = index(n, 3)
                    same("invariant holds on entry: out is |k|", S(x.elem((a, b))), S(app("abs", b2n(g((a, b))))))
            def havoc(s, it, vars):
                s.it = it; s.wd = uf("width", it, sort="I"); ctx.assume(ge(s.wd, ONE)); s.carried(vars)[1](H(it, s.wd))
            def preserve(s, it, vars):
                x = s.carried(vars)[0]()
                want = AbsAct(s.it)(AbsLayer(s.it, uf("width", add(s.it, ONE), sort="I"))(H(s.it, s.wd)))
                if shape_is("loop step", x, (n, S(uf("width", add(s.it, ONE), sort="I")))):
                    a = index(n)[0]; b = index(S(uf("width", add(s.it, ONE), sort="I")))[0]
                    same("invariant preserved: out becomes act_i(layer_i(out))", S(x.elem((a, b))), S(want.elem((a, b))))
        loops.SPECS.append(("depth", Inv()))
        y = t(k)
        loops.SPECS.clear()
        if not shape_is("tau", y, (n,)): return
        out = last(H(m.v, uf("width", m.v, sort="I")))
        a = [add(app("abs", kv[c]), b2n(out.elem((i, const(c))))) for c in range(3)]
        kk = add(*[sq(z) for z in a]); ctx.assume(gt(kk, ZERO))
        same("network lifetime is the rational kernel of |kL| + NN(|kL|)", S(y.elem((i,))), S(rational(sqrt(kk), var("nu"))))
        holds("network lifetime >= 0", ge(E_(S(y.elem((i,)))), ZERO))
        loops.SPECS.append(("depth", Inv()))
        for c in range(3): same("network lifetime even in k%d" % (c + 1), S(y.elem((i,))), S(evenof(t, k, n, i, c)))
    def evenof(t, k, n, i, c): return t(flipped(k, c)).elem((i,))
    chk.case("network of any depth, widths, weights and activations", lambda: anydepth("nu"))
if __name__ == "__main__": main("C06", contract)
