from opsspec import *
def contract(chk):
    chk.fn("one_point_spectra.OnePointSpectra.__init__", "one_point_spectra.OnePointSpectra.SpectralCoherence", "one_point_spectra.OnePointSpectra._PowerSpectra_coherence", "one_point_spectra.OnePointSpectra._quad23_coherence", "one_point_spectra.OnePointSpectra.EddyLifetime", "common.VKLike_EnergySpectrum", "common.Learnable_EnergySpectrum")
    chk.trust("torch.trapz, logspace, meshgrid, cat, flip, stack, exp of imaginary argument, abs of complex per documentation", "the eddy lifetime network enters as an arbitrary non-negative function of the scaled wavevector",
              "composition: every entry equals the contract's |S(r)|^2/|S(0)|^2 (proved); the bound, the value at zero separation and evenness are lemmas about that value, the bound by induction over the terms of the trapezoidal sums (base and step are the lemma obligations)")
    def run(learn, seps, coherence=True):
        o, d = build(chk, "TAUNET", learn, coherence=coherence)
        n = nat("n"); k1 = arr("k1", n, lib="t"); numev.declare("k1", "pos")
        return o, d, n, o.SpectralCoherence(k1, seps)
    def spec(d, x, r, c, cgrid):
        g = lambda j: div(grid(*cgrid, j), d["L"])
        m = add(mul(q(2), cgrid[2]), ONE)
        def f(a, b):
            k = (x, g(a), g(b)); beta, e = point(d, "TAUNET", k)
            return floored(tensor(k, beta, e), (c, c), const(Fr(1, 10 ** 32)))
        I = lambda w: trap(m, g, lambda a: trap(m, g, lambda b: mul(f(a, b), w(mul(g(a), r)))))
        return I(lambda t: app("cos", t)), I(lambda t: app("sin", t)), I(lambda t: ONE)
    def formula(learn, coherence=True):
        m = nat("m"); seps = arr("r", m, lib="t")
        o, d, n, y = run(learn, seps, coherence)
        if not shape_is("coherence", y, (3, m, n)): return
        j, i = index(m, n); x = uf("k1", i); ctx.assume(gt(x, ZERO))
        cg = (d["c1"], d["c2"], d["Nc"]) if coherence else (q(-3), q(3), q(100))
        for c in range(3):
            Re, Im, S0 = spec(d, x, uf("r", j), c, cg)
            same("coherence of component %d" % c, S(y.elem((const(c), j, i))), S(div(add(sq(Re), sq(Im)), sq(S0))))
    chk.case("formula, von Karman spectrum", lambda: formula(False), budget=150)
    chk.case("formula, learnable spectrum", lambda: formula(True), budget=150)
    chk.case("formula, default coherence grid", lambda: formula(False, False), budget=150)
    def generic():
        """zero separation and evenness of the contract value, for an arbitrary positive integrand on the model's grid"""
        p1, p2 = var("c1"), var("c2"); ctx.assume(lt(p1, p2)); N = nat("Nc", 2).v; L = pos("L").v; r = var("r"); numev.declare("f", "pos")
        g = lambda j: div(grid(p1, p2, N, j), L); m = add(mul(q(2), N), ONE)
        I = lambda w: trap(m, g, lambda a: trap(m, g, lambda b: mul(uf("f", a, b), w(g(a)))))
        S0 = I(lambda t: ONE)
        numev.declare("h", "pos")  # grid increments, positive by the grid lemma
        tr = lambda F: (lambda s: sum_(s, sub(m, ONE), mul(q(1, 2), uf("h", s), add(F(s), F(add(s, ONE))))))(fresh("t", "I"))
        holds("S(0) is positive", gt(tr(lambda a: tr(lambda b: uf("f", a, b))), ZERO))
        C, Sn = (lambda r: I(lambda t: app("cos", mul(t, r)))), (lambda r: I(lambda t: app("sin", mul(t, r))))
        same("real part at zero separation is S(0)", S(C(ZERO)), S(S0)); same("imaginary part at zero separation is 0", S(Sn(ZERO)), S(ZERO))
        same("real part even", S(C(r)), S(C(neg(r)))); same("imaginary part odd", S(Sn(r)), S(neg(Sn(neg(r)))))
    chk.case("lemma: zero separation and evenness", generic)
    def lemma():
        """|sum_s w_s (z_s + z_s+1)| <= sum_s w_s (|z_s| + |z_s+1|): base and step of the induction on the number of terms, in squared form"""
        A, B, a, u, v, t = [var(n) for n in ("A_re", "A_im", "A_bound", "z_re", "z_im", "z_bound")]
        w = var("w")
        for n_ in (a, t, w): ctx.assume(ge(n_, ZERO))
        ctx.assume(le(add(sq(A), sq(B)), sq(a))); ctx.assume(le(add(sq(u), sq(v)), sq(t)))
        holds("triangle step: the bound on |A| and |z| bounds |A+z|", le(add(sq(add(A, u)), sq(add(B, v))), sq(add(a, t))))
        holds("weight: |w z| <= w |z|", le(add(sq(mul(w, u)), sq(mul(w, v))), sq(mul(w, t))))
        th, f = var("theta"), var("f"); ctx.assume(ge(f, ZERO))
        same("|f e^(i theta)| = f", S(add(sq(mul(f, app("cos", th))), sq(mul(f, app("sin", th))))), S(sq(f)))
    chk.case("lemma: sums of phased non-negative terms", lemma)
    def bound():
        Re, Im, S0 = var("Re"), var("Im"), var("S0"); ctx.assume(gt(S0, ZERO)); ctx.assume(le(add(sq(Re), sq(Im)), sq(S0)))
        v = div(add(sq(Re), sq(Im)), sq(S0))
        same("coherence at zero separation is 1", S(div(add(sq(S0), sq(ZERO)), sq(S0))), S(ONE))
        holds("coherence >= 0", ge(v, ZERO)); holds("coherence <= 1", le(v, ONE))
    chk.case("lemma: value in [0,1]", bound)
    def nonneg():
        """the integrand is positive and the grid increases, so every term of the trapezoidal sums is a non-negative weight times a phase"""
        d = dict(L=pos("L").v, G=pos("Gamma").v, M=pos("sigma").v, pq=None); numev.declare("tauNet", "nonneg")
        k = (pos("x").v, real("y").v, real("z").v); beta, e = point(d, "TAUNET", k)
        for c in range(3): holds("floored component %d is positive" % c, gt(floored(tensor(k, beta, e), (c, c), const(Fr(1, 10 ** 32))), ZERO))
        p1, p2 = var("p1"), var("p2"); ctx.assume(lt(p1, p2)); N = nat("Ng", 2).v
        (j,) = index(S(mul(q(2), N)))
        holds("grid strictly increasing", lt(grid(p1, p2, N, j), grid(p1, p2, N, add(j, ONE))))
    chk.case("lemma: positive integrand, increasing grid", nonneg)
if __name__ == "__main__": main("C07", contract)
