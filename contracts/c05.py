from opsspec import *
def contract(chk):
    chk.fn("one_point_spectra.OnePointSpectra.__init__", "one_point_spectra.OnePointSpectra.exp_scales", "one_point_spectra.OnePointSpectra.forward", "one_point_spectra.OnePointSpectra.EddyLifetime", "one_point_spectra.OnePointSpectra.PowerSpectra", "one_point_spectra.OnePointSpectra.quad23", "common.VKLike_EnergySpectrum", "common.Learnable_EnergySpectrum")
    chk.trust("torch.trapz, logspace, meshgrid, cat, flip, stack per documentation", "the eddy lifetime network enters as an arbitrary non-negative function of the scaled wavevector")
    def table(o, d, kind, posit=True):
        n = nat("n"); k1 = arr("k1", n, lib="t"); numev.declare("k1", "pos")
        y = o.forward(k1)
        if not shape_is("spectra", y, (6, n)): return
        (i,) = index(n); x = uf("k1", i); ctx.assume(gt(x, ZERO))
        g = lambda j: grid(d["p1"], d["p2"], d["N"], j)
        m = add(mul(q(2), d["N"]), ONE)
        for c, ij in enumerate(NAMES):
            def f(a, b):
                k = (x, g(a), g(b)); beta, e = point(d, kind, k)
                return floored(tensor(k, beta, e), ij, const(Fr(1, 10 ** 12)))
            spec = mul(x, trap(m, g, lambda a: trap(m, g, lambda b: f(a, b))))
            same("spectrum %d%d at k1" % (ij[0] + 1, ij[1] + 1), S(y.elem((const(c), i))), S(spec))
            if ij[0] == ij[1] and posit: holds("auto-spectrum %d is positive" % (ij[0] + 1), gt(E_(S(y.elem((const(c), i)))), ZERO))
    def fwd(kind, learn): 
        o, d = build(chk, kind, learn); table(o, d, kind, kind == "TAUNET")
    chk.case("CONST", lambda: fwd("CONST", False))
    chk.case("TWOTHIRD", lambda: fwd("TWOTHIRD", False))
    chk.case("MANN", lambda: fwd("MANN", False))
    chk.case("TAUNET", lambda: fwd("TAUNET", False), budget=150)
    chk.case("learnable spectrum", lambda: fwd("TAUNET", True), budget=150)
    def history():
        o, d = build(chk, "TAUNET", True)
        n0 = nat("n_before"); o.forward(arr("k1_before", n0, lib="t")); numev.declare("k1_before", "pos")
        # any change of the parameters between the two evaluations
        for nm in ("logLengthScale", "logTimeScale", "logMagnitude"):
            if not hasattr(o, nm): raise Unsupported("scale parameter %s not found" % nm)
        l, t, m = real("l_new"), real("t_new"), real("m_new"); p, qq = pos("p_new"), pos("q_new")
        for nm, v in (("logLengthScale", l), ("logTimeScale", t), ("logMagnitude", m), ("p_exponent", p), ("q_exponent", qq)): getattr(o, nm).data = asA(v) if False else v
        d = dict(d, L=app("exp", l.v), G=app("exp", t.v), M=app("exp", m.v), pq=(p.v, qq.v))
        table(o, d, "TAUNET", False)
    if 1: chk.case("after an earlier evaluation and any parameter change", history)
    def gridlemma():
        """the grid of the contract is increasing and symmetric; with the cases above this makes the code's grid so"""
        p1, p2 = var("p1"), var("p2"); ctx.assume(lt(p1, p2)); N = nat("Ng", 2).v
        (j,) = index(S(mul(q(2), N)))
        holds("grid strictly increasing", lt(grid(p1, p2, N, j), grid(p1, p2, N, add(j, ONE))))
        same("grid symmetric about zero", S(grid(p1, p2, N, j)), S(neg(grid(p1, p2, N, sub(mul(q(2), N), j)))))
    chk.case("grid lemma", gridlemma)
if __name__ == "__main__": main("C05", contract)
