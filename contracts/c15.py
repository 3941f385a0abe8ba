from lowspec import *
def shape_fn(L, z, k2): return mul(powc(add(powc(L, -2), k2), Fr(7, 3)), add(ONE, mul(k2, sq(z))))
def contract(chk):
    chk.fn("low_frequency.LowFreqGenerator._compute_c", "low_frequency.LowFreqGenerator._generate_numba_helper", "low_frequency.LowFreqGenerator.generate", "low_frequency.LowFreqGenerator.__init__")
    chk.trust("numpy fft2/ifft2 as opaque operators (discrete Fourier transform pair)", "numba executes the helper with the semantics of its Python text; prange iterations are independent (each writes its own element)",
              "scipy.integrate.quad approximates the integral of the function it is given between the limits it is given",
              "below the code's underflow guards (k^2 < 1e-20, kappa^2 < 1e-20, denominator < 1e-30, dx dy < 1e-16) the coefficients are as the guards say; the formulas are proved above them")
    box = {}
    def constant():
        M = chk.load(LF); s2, L, z = pos("sigma2"), pos("L2d"), pos("zi")
        g = bare(M.LowFreqGenerator, sigma2=s2, L_2d=L, z_i=z)
        I = real("I"); ctx.assume(ge(I.v, ZERO)); box["I"] = I.v
        k = pos("kappa"); ctx.assume(ge(sq(k.v), q(1, 10**30))); ctx.assume(ge(shape_fn(L.v, z.v, sq(k.v)), q(1, 10**30)))
        n = []
        def quad(f, a, b, args=()):
            n.append(1)
            same("lower limit", S(val(a)), S(ZERO)); concrete("upper limit is infinity", val(b).op == "inf")
            same("integrand is the spectrum shape", f(k, *args), S(div(powc(k.v, 3), shape_fn(L.v, z.v, sq(k.v)))))
            return I, S(ZERO, "f")
        ctx.State.hooks["quad"] = quad
        c = g._compute_c()
        concrete("one integral", len(n) == 1)
        same("c = sigma^2/(2 integral)", c, S(div(s2.v, mul(const(2), I.v))))
    def near_zero(exc, p): return [lt(box["I"], q(1, 10**15))] if isinstance(exc, ValueError) else None
    chk.case("normalising constant", constant, raises=near_zero)
    def coefs():
        M = chk.load(LF)
        n1, n2 = nat("n1"), nat("n2"); K1, K2 = arr("K1", n1, n2), arr("K2", n1, n2)
        c, L, psi, z, dx, dy = pos("c"), pos("L2d"), real("psi"), pos("zi"), pos("dx"), pos("dy")
        nh = SArr((n1.v, n2.v), lambda idx: Cx(uf("nr", *idx), uf("ni", *idx)), "c")
        ctx.assume(ge(mul(dx.v, dy.v), q(1, 10**16)))
        o1, o2 = M.LowFreqGenerator._generate_numba_helper(K1, K2, c, L, psi, z, dx, dy, n1, n2, nh)
        if not (shape_is("u1 coefficients", o1, (n1.v, n2.v)) and shape_is("u2 coefficients", o2, (n1.v, n2.v))): return
        i, j = index(n1, n2); a, b = o1.elem((i, j)), o2.elem((i, j)); k1, k2 = uf("K1", i, j), uf("K2", i, j); n = Cx(uf("nr", i, j), uf("ni", i, j))
        kk = add(sq(k1), sq(k2)); kap2 = mul(const(2), add(mul(sq(app("cos", psi.v)), sq(k1)), mul(sq(app("sin", psi.v)), sq(k2))))
        same("2D divergence", S(vadd(vmul(k1, a), vmul(k2, b))), S(ZERO))
        if decide(lt(kk, q(1, 10**20))):
            same("mean coefficient, u1", S(a), S(ZERO)); same("mean coefficient, u2", S(b), S(ZERO)); return
        den = shape_fn(L.v, z.v, kap2)
        ctx.assume(ge(kap2, q(1, 10**20))); ctx.assume(ge(den, q(1, 10**30)))
        E = div(mul(c.v, powc(sqrt(kap2), 3)), den)
        A = mul(sqrt(div(E, mul(PI, powc(sqrt(kk), 3)))), div(mul(const(2), PI), sqrt(mul(dx.v, dy.v))))
        same("u1 coefficient", S(a), S(vmul(vmul(Cx(ZERO, ONE), mul(A, k2)), n)))
        same("u2 coefficient", S(b), S(vneg(vmul(vmul(Cx(ZERO, ONE), mul(A, k1)), n))))
    chk.case("Fourier coefficients", coefs, budget=90)
    def wiring():
        M = chk.load(LF); a, b, n, m = nat("a", 0), nat("b", 0), nat("N1"), nat("N2"); n1, n2 = n + a, m + b
        seen = []
        Q = [SArr((n1.v, n2.v), lambda idx, t=t: Cx(uf("Q%dr" % t, *idx), uf("Q%di" % t, *idx)), "c") for t in (1, 2)]
        class G(M.LowFreqGenerator):
            @staticmethod
            def _generate_numba_helper(*x, **kw): seen.append((x, kw)); return Q[0].copy_as("np"), Q[1].copy_as("np")
        p = dict(k1=arr("K1", n1, n2), k2=arr("K2", n1, n2), c=pos("c"), L_2d=pos("L2d"), psi=real("psi"), z_i=pos("zi"), comp_dx=pos("dx"), comp_dy=pos("dy"))
        g = bare(G, user_N1=n, user_N2=m, comp_N1=n1, comp_N2=n2, u1=None, u2=None, u1_full=None, u2_full=None, **p)
        u1, u2 = g.generate()
        concrete("coefficients computed once", len(seen) == 1)
        if len(seen) != 1: return
        x, kw = seen[0]; names = ["k1", "k2", "c", "L_2d", "psi", "z_i", "dx", "dy", "N1", "N2", "noise_hat"]
        kw = dict(zip(names, x), **kw)
        for t, nm in ((1, "k1"), (2, "k2")): arr_is("wavenumbers " + nm, kw[nm], (n1.v, n2.v), lambda i, j, t=t: S(uf("K%d" % t, i, j)))
        for nm, at in (("c", "c"), ("L_2d", "L_2d"), ("psi", "psi"), ("z_i", "z_i"), ("dx", "comp_dx"), ("dy", "comp_dy")): same("parameter " + nm, kw[nm], p[at])
        same("points N1", kw["N1"], n1); same("points N2", kw["N2"], n2)
        draws = [c for c in shims.world().calls if c[0] == "draw"]
        concrete("one noise realisation", len(draws) == 1)
        if len(draws) != 1: return
        nm = draws[0][1]; noise = arr(nm, n1, n2); want = shims.fft2(noise)
        arr_is("noise spectrum", kw["noise_hat"], (n1.v, n2.v), lambda i, j: S(want.elem((i, j))))
        for t, full in ((0, g.u1_full), (1, g.u2_full)):
            w = shims.ifft2(Q[t]); arr_is("u%d is the real inverse transform" % (t + 1), full, (n1.v, n2.v), lambda i, j: S(re_(w.elem((i, j)))))
        ox, oy = vfdiv(a.v, const(2)), vfdiv(b.v, const(2))
        for t, u in ((0, u1), (1, u2)):
            w = shims.ifft2(Q[t]); arr_is("delivered u%d" % (t + 1), u, (n.v, m.v), lambda i, j: S(re_(w.elem((add(i, ox), add(j, oy))))))
    chk.case("from noise to field", wiring)
    def stored():
        M, g, d = low(chk)
        n1, n2, h = d["n1"], d["n2"], d["h"]
        for nm, w in (("c", "c"), ("L_2d", "L"), ("psi", "psi"), ("z_i", "z"), ("sigma2", "s2")): same(nm, getattr(g, nm), S(d[w]))
        fr = lambda i, n: S(mul(const(2), PI, div(ite(le(mul(const(2), i), sub(n, ONE)), i, sub(i, n)), mul(n, h))))
        arr_is("k1", g.k1, (n1, n2), lambda i, j: fr(i, n1)); arr_is("k2", g.k2, (n1, n2), lambda i, j: fr(j, n2))
        same("dx", g.comp_dx, S(h)); same("dy", g.comp_dy, S(h)); same("N1", g.comp_N1, S(n1)); same("N2", g.comp_N2, S(n2))
    chk.case("parameters and wavenumbers of the constructed generator", stored)
if __name__ == "__main__": main("C15", contract)
