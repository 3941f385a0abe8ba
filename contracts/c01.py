from spec import *
KER = "drdmannturb.fluctuation_generation.covariance_kernels"
def contract(chk):
    K = chk.load(KER)
    chk.fn("covariance_kernels.VonKarmanCovariance.precompute_Spectrum", "covariance_kernels.MannCovariance.precompute_Spectrum", "covariance_kernels.*.__init__")
    chk.trust("numpy: zeros, tile, meshgrid(indexing='ij'), where, sum, nan_to_num, arctan2 per documentation",
              "scipy.special.hyp2f1(1/3,17/6,4/3,x) > 0 for x <= 0, tends to 0 for x -> -inf")
    def vk():
        L, E0 = pos("L"), pos("E0")
        c = K.VonKarmanCovariance(3, L, E0)
        F, n, ix, k = freqs()
        G = c.precompute_Spectrum(F)
        if not shape_is("G", G, (3, 3) + tuple(n)): return
        M = [[G.elem((const(i), const(j)) + tuple(ix)) for j in range(3)] for i in range(3)]
        P = iso(e_vk(E0.v, L.v, add(*[sq(x) for x in k])), k)
        for i in range(3):
            for j in range(3):
                same("GG*[%d,%d] is the von Karman tensor" % (i, j), S(gram(M, i, j)), S(Cx(P[i][j], ZERO)))
                finite("G[%d,%d]" % (i, j), M[i][j])
    chk.case("von Karman", vk)
    def mann(which):
        L, E0 = pos("L"), pos("E0"); Gam = real("Gamma")
        ctx.assume(ge(Gam.v, ZERO))
        c = K.MannCovariance(3, L, E0, Gam)
        F, n, ix, k = freqs()
        kk = add(*[sq(x) for x in k])
        if which == "generic": ctx.assume(ne(k[0], ZERO))
        if which == "plane": ctx.assume(eq(k[0], ZERO))
        G = c.precompute_Spectrum(F)
        if not shape_is("G", G, (3, 3) + tuple(n)): return
        M = [[G.elem((const(i), const(j)) + tuple(ix)) for j in range(3)] for i in range(3)]
        if which == "generic":
            beta = mul(Gam.v, mann_lifetime(L.v, kk))
            z1, z2, z3, k0 = zetas(k, beta)
            P = distort(iso(e_vk(E0.v, L.v, add(*[sq(x) for x in k0])), k0), z1, z2, z3)
        else:
            P = iso(e_vk(E0.v, L.v, kk), k)
        for i in range(3):
            for j in range(3):
                if which == "generic": same("GG*[%d,%d] is the sheared tensor" % (i, j), S(gram(M, i, j)), S(Cx(P[i][j], ZERO)))
                else: same("GG*[%d,%d] is the isotropic tensor on k1=0" % (i, j), S(gram(M, i, j)), S(Cx(P[i][j], ZERO)))
                finite("G[%d,%d]" % (i, j), M[i][j])
    chk.case("Mann, k1 != 0", lambda: mann("generic"))
    chk.case("Mann, k1 == 0", lambda: mann("plane"))
    def zero(which):
        L, E0 = pos("L"), pos("E0"); Gam = real("Gamma"); ctx.assume(ge(Gam.v, ZERO))
        c = K.MannCovariance(3, L, E0, Gam) if which == "mann" else K.VonKarmanCovariance(3, L, E0)
        F, n, ix, k = freqs()
        for x in k: ctx.assume(eq(x, ZERO))
        G = c.precompute_Spectrum(F)
        for i in range(3):
            for j in range(3): same("%s G(0)[%d,%d] = 0" % (which, i, j), S(G.elem((const(i), const(j)) + tuple(ix))), S(Cx(ZERO, ZERO)))
    chk.case("k = 0, Mann", lambda: zero("mann"))
    chk.case("k = 0, von Karman", lambda: zero("vk"))
if __name__ == "__main__": main("C01", contract)
