from opsspec import *
def setup():
    numev.declare("E0", "pos"); numev.declare("beta", "nonneg")
    n = [nat("n%d" % a) for a in range(3)]
    k = SArr(tuple(x.v for x in n) + (const(3),), lambda ix: uf("k", *ix), "f", "t")
    b = arr("beta", *n, lib="t"); e = arr("E0", *n, lib="t")
    ix = index(*n)
    kv = [uf("k", *ix, const(c)) for c in range(3)]
    ctx.assume(ne(kv[0], ZERO)); ctx.assume(ge(uf("beta", *ix), ZERO)); ctx.assume(gt(uf("E0", *ix), ZERO))
    return n, k, b, e, ix, kv
def contract(chk):
    O = chk.load(OPS)
    chk.fn("one_point_spectra.OnePointSpectra.PowerSpectra", "one_point_spectra.OnePointSpectra._PowerSpectra_coherence", "one_point_spectra.OnePointSpectra.forward", "one_point_spectra.OnePointSpectra.SpectralCoherence", "covariance_kernels.MannCovariance.precompute_Spectrum")
    chk.trust("torch elementwise operators, where, sign, atan2 per documentation")
    def go(which):
        n, k, b, e, ix, kv = setup()
        o = O.OnePointSpectra.__new__(O.OnePointSpectra)
        try: O.OnePointSpectra.__bases__[0].__init__(o)
        except Exception: pass
        if which == "fit":
            o.k = k; o.beta = b; o.E0 = e
            r = o.PowerSpectra(); eps = const(Fr(1, 10 ** 12))
        else:
            r = o._PowerSpectra_coherence(k, b, e); eps = const(Fr(1, 10 ** 32))
        concrete("six components", len(r) == 6)
        P = tensor(kv, uf("beta", *ix), uf("E0", *ix))
        for c, ij in enumerate(NAMES):
            if not shape_is("component %d" % c, r[c], n): continue
            same("component %d is Phi%d%d" % (c, ij[0] + 1, ij[1] + 1), S(r[c].elem(tuple(ix))), S(floored(P, ij, eps)))
    # lemmas about the two internal functions, for arbitrary wavevector, lifetime and energy arrays
    chk.case("one-point tensor", lambda: go("fit"), soft=True)
    chk.case("coherence tensor", lambda: go("coh"), soft=True)
    # observable: the tensor that is integrated, and the generator's kernel
    def spectra():
        o, d = build(chk, "TAUNET")
        n = nat("n"); k1 = arr("k1", n, lib="t"); numev.declare("k1", "pos")
        y = o.forward(k1)
        if not shape_is("spectra", y, (6, n)): return
        (i,) = index(n); x = uf("k1", i); ctx.assume(gt(x, ZERO))
        g = lambda j: grid(d["p1"], d["p2"], d["N"], j); m = add(mul(q(2), d["N"]), ONE)
        for c, ij in enumerate(NAMES):
            def f(a, b):
                k = (x, g(a), g(b)); beta, e = point(d, "TAUNET", k)
                return floored(tensor(k, beta, e), ij, const(Fr(1, 10 ** 12)))
            same("integrated component %d is Phi%d%d" % (c, ij[0] + 1, ij[1] + 1), S(y.elem((const(c), i))), S(mul(x, trap(m, g, lambda a: trap(m, g, lambda b: f(a, b))))))
    chk.case("tensor inside the one-point spectra", spectra, budget=150)
    def coherence():
        o, d = build(chk, "TAUNET", coherence=True)
        n, m = nat("n"), nat("m"); numev.declare("k1", "pos")
        y = o.SpectralCoherence(arr("k1", n, lib="t"), arr("r", m, lib="t"))
        if not shape_is("coherence", y, (3, m, n)): return
        j, i = index(m, n); x = uf("k1", i); ctx.assume(gt(x, ZERO))
        g = lambda j: div(grid(d["c1"], d["c2"], d["Nc"], j), d["L"]); M = add(mul(q(2), d["Nc"]), ONE)
        for c in range(3):
            def f(a, b):
                k = (x, g(a), g(b)); beta, e = point(d, "TAUNET", k)
                return floored(tensor(k, beta, e), (c, c), const(Fr(1, 10 ** 32)))
            I = lambda w: trap(M, g, lambda a: trap(M, g, lambda b: mul(f(a, b), w(mul(g(a), uf("r", j))))))
            same("coherence of component %d integrates Phi%d%d" % (c, c + 1, c + 1), S(y.elem((const(c), j, i))), S(div(add(sq(I(lambda t: app("cos", t))), sq(I(lambda t: app("sin", t)))), sq(I(lambda t: ONE)))))
    chk.case("tensor inside the coherence", coherence, budget=150)
    def kernel():
        """the Mann generator's kernel is a square root of the same tensor at its eddy lifetime (k1 != 0)"""
        K = chk.load("drdmannturb.fluctuation_generation.covariance_kernels")
        L, E0 = pos("L"), pos("E0"); Gam = real("Gamma"); ctx.assume(ge(Gam.v, ZERO))
        F, n, ix, k = freqs("kf"); ctx.assume(ne(k[0], ZERO))
        G = K.MannCovariance(3, L, E0, Gam).precompute_Spectrum(F)
        kk = add(*[sq(x) for x in k]); beta = mul(Gam.v, mann_lifetime(L.v, kk))
        k0 = (k[0], k[1], add(k[2], mul(beta, k[0]))); kk0 = add(*[sq(x) for x in k0])
        x = mul(L.v, sqrt(kk0)); e = mul(E0.v, powc(L.v, Fr(5, 3)), div(powc(x, 4), powc(add(ONE, sq(x)), Fr(17, 6))))
        P = tensor(k, beta, e)
        M = [[G.elem((const(i), const(j)) + tuple(ix)) for j in range(3)] for i in range(3)]
        for i, j in NAMES: same("GG*[%d,%d] is the fitted tensor" % (i, j), S(gram(M, i, j)), S(Cx(P[i][j], ZERO)))
    chk.case("tensor of the Mann field generator", kernel)
if __name__ == "__main__": main("C04", contract)
