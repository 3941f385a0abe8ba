from lowspec import *
def contract(chk):
    chk.fn("low_frequency.LowFreqGenerator.__init__", "low_frequency.LowFreqGenerator._calculate_buffer_sizes", "low_frequency.LowFreqGenerator._extract_field_portion", "low_frequency.LowFreqGenerator.generate")
    chk.trust("numpy ceil, linspace, meshgrid, fftfreq per documentation", "numpy fft2/ifft2 as opaque operators", "np.isclose is true of equal numbers")
    def sizes():
        M = chk.load(LF)
        dx, dy, L = pos("dx"), pos("dy"), pos("L2d"); N1, N2 = nat("N1"), nat("N2")
        g = bare(M.LowFreqGenerator, user_dx=dx, user_dy=dy, user_N1=N1, user_N2=N2, user_L1=dx * N1, user_L2=dy * N2, L_2d=L)
        c1, c2, n1, n2 = g._calculate_buffer_sizes()
        h = min_(dx.v, dy.v)
        for nm, n, ext, N, s in (("x", n1, c1, N1, dx), ("y", n2, c2, N2, dy)):
            same("extent is points times the finer spacing, " + nm, ext, S(mul(val(n), h)))
            same("even number of points along " + nm, n % 2, S(ZERO))
            holds("at least two points along " + nm, ge(val(n), const(2)))
            holds("extent covers the request along " + nm, ge(val(ext), mul(N.v, s.v)))
            holds("extent covers five length scales along " + nm, ge(val(ext), mul(const(5), L.v)))
            holds("points cover the request along " + nm, ge(val(n), N.v))
    chk.case("internal grid", sizes, budget=60)
    def built():
        M, g, d = low(chk); h = d["h"]; n1, n2 = d["n1"], d["n2"]
        same("stored x spacing", g.comp_dx, S(h)); same("stored y spacing", g.comp_dy, S(h))
        for nm, want in (("user_L1", "L1"), ("user_L2", "L2"), ("user_N1", "N1"), ("user_N2", "N2"), ("user_dx", "dx"), ("user_dy", "dy"), ("comp_N1", "n1"), ("comp_N2", "n2"), ("L_2d", "L"), ("psi", "psi"), ("z_i", "z"), ("sigma2", "s2"), ("c", "c")): same(nm, getattr(g, nm), S(d[want]))
        same("comp_L1", g.comp_L1, S(mul(n1, h))); same("comp_L2", g.comp_L2, S(mul(n2, h)))
        arr_is("x coordinates of the request", g.user_x_coords, (d["N1"],), lambda i: S(mul(i, d["dx"])))
        arr_is("y coordinates of the request", g.user_y_coords, (d["N2"],), lambda i: S(mul(i, d["dy"])))
        arr_is("X", g.X, (d["N1"], d["N2"]), lambda i, j: S(mul(i, d["dx"])))
        arr_is("Y", g.Y, (d["N1"], d["N2"]), lambda i, j: S(mul(j, d["dy"])))
        fr = lambda i, n: S(mul(const(2), PI, div(ite(le(mul(const(2), i), sub(n, ONE)), i, sub(i, n)), mul(n, h))))
        arr_is("k1", g.k1, (n1, n2), lambda i, j: fr(i, n1)); arr_is("k2", g.k2, (n1, n2), lambda i, j: fr(j, n2))
    chk.case("constructed generator", built)
    def window():
        M = chk.load(LF)
        a, b, n, m = nat("a", 0), nat("b", 0), nat("N1"), nat("N2")
        g = bare(M.LowFreqGenerator, user_N1=n, user_N2=m)
        f = arr("f", n + a, m + b)
        out = g._extract_field_portion(f)
        ox, oy = vfdiv(a.v, const(2)), vfdiv(b.v, const(2))
        arr_is("centred window", out, (n.v, m.v), lambda i, j: S(uf("f", add(i, ox), add(j, oy))))
        i, j = index(add(n.v, a.v), add(m.v, b.v)); same("field itself left alone", S(f.elem((i, j))), S(uf("f", i, j)))
    chk.case("extraction from every larger field", window)
    def delivered():
        M = chk.load(LF)
        a, b, n, m = nat("a", 0), nat("b", 0), nat("N1"), nat("N2"); n1, n2 = n + a, m + b
        seen = []
        class G(M.LowFreqGenerator):
            @staticmethod
            def _generate_numba_helper(*x): seen.append(x); return arr("Q1", n1, n2), arr("Q2", n1, n2)
        g = bare(G, user_N1=n, user_N2=m, comp_N1=n1, comp_N2=n2, k1=arr("k1", n1, n2), k2=arr("k2", n1, n2), c=pos("c"), L_2d=pos("L2d"), psi=real("psi"), z_i=pos("zi"), comp_dx=pos("h"), comp_dy=pos("h"), u1=None, u2=None, u1_full=None, u2_full=None)
        u1, u2 = g.generate()
        ox, oy = vfdiv(a.v, const(2)), vfdiv(b.v, const(2))
        for nm, u, full, own in (("u1", u1, g.u1_full, g.u1), ("u2", u2, g.u2_full, g.u2)):
            if not shape_is(nm + " internal", full, (n1.v, n2.v)): continue
            arr_is(nm + " delivered", u, (n.v, m.v), lambda i, j, full=full: S(full.elem((add(i, ox), add(j, oy)))))
            arr_is(nm + " kept", own, (n.v, m.v), lambda i, j, full=full: S(full.elem((add(i, ox), add(j, oy)))))
    chk.case("generated fields", delivered)
if __name__ == "__main__": main("C14", contract)
