from lowspec import *
from c15 import shape_fn
def contract(chk):
    chk.fn("low_frequency.LowFreqGenerator.compute_spectrum", "low_frequency.LowFreqGenerator._compute_spectrum_numba_helper", "low_frequency.LowFreqGenerator.analytical_spectrum")
    chk.trust("numpy fft2 as an opaque operator", "scipy.integrate.quad approximates the integral of the function it is given between the limits it is given",
              "numba executes the helper with the semantics of its Python text", "np.unique returns the distinct values in increasing order, np.sort leaves an increasing sequence unchanged, mask indexing keeps the order: the hypotheses of these facts are proved as obligations",
              "a sum whose terms vanish except at one index equals that term (the hypothesis is proved as an obligation)",
              "theoretical spectra: formulas proved above the code's underflow guards (k^2 < 1e-24, kappa^2 < 1e-24, denominator < 1e-30, |k1| < 1e-15)")
    def helper():
        M = chk.load(LF)
        n1, n2, m = nat("n1"), nat("n2"), nat("m", 0)
        P1, P2, K, kp = arr("P1", n1, n2), arr("P2", n1, n2), arr("K", n1, n2), arr("kp", m)
        s, tol = pos("s"), pos("tol")
        F11, F22 = M.LowFreqGenerator._compute_spectrum_numba_helper(P1, P2, K, kp, s, tol)
        def want(P):
            def f(i):
                r, c = fresh("r", "I"), fresh("c", "I")
                t = ite(lt(app("abs", sub(uf("K", r, c), uf("kp", i))), tol.v), uf(P, r, c), ZERO)
                return S(mul(s.v, sum_(r, n1.v, sum_(c, n2.v, t))))
            return f
        arr_is("F11 sums the power at its wavenumber", F11, (m.v,), want("P1"))
        arr_is("F22 sums the power at its wavenumber", F22, (m.v,), want("P2"))
    chk.case("summation over k2", helper)
    def estimator(par):
        def body():
            M = chk.load(LF)
            h = nat("h", 1); n1 = h * 2 if par else S(const(1)); n2 = nat("n2"); dx, dy, tol = pos("dx"), pos("dy"), pos("tol"); L1 = dx * n1
            ctx.assume(lt(tol.v, div(mul(const(2), PI), L1.v)))
            N = n1.v; step = div(mul(const(2), PI), mul(N, dx.v)); half = h.v if par else ZERO
            seen = []
            def unique(x):
                # sorted distinct values are v(0) < v(1) < ... when every entry is some v(j) and every v(j) is an entry
                v = lambda j: mul(j, step); m = add(half, ONE)
                if not same_dim(x.shape_[0], N): raise Unsupported("unique of another vector")
                i, = index(N); ph = min_(i, sub(N, i))
                same("|k1| takes the values 2 pi j / L1", S(x.elem((i,))), S(v(ph))); holds("|k1| index in range", and_(ge(ph, ZERO), lt(ph, m)))
                j, = index(m); same("every 2 pi j / L1 up to Nyquist occurs", S(x.elem((j,))), S(v(j)))
                return SArr((m,), lambda idx: v(idx[0]), "f")
            def select(mask):
                m = mask.shape_[0]; j, = index(m)
                holds("exactly the positive wavenumbers are kept", iff(tob(mask.elem((j,))), ge(j, ONE)))
                return sub(m, ONE), (lambda j: add(j, ONE)), (lambda i: sub(i, ONE))
            def sort(x):
                i, j = index(x.shape_[0], x.shape_[0]); ctx.assume(lt(i, j))
                holds("already increasing", lt(x.elem((i,)), x.elem((j,))))
                return x
            ctx.State.hooks.update(unique=unique, select=select, sort=sort)
            class G(M.LowFreqGenerator):
                @staticmethod
                def _compute_spectrum_numba_helper(power_u1, power_u2, k1_grid, k1_pos, scaling_factor, k_tol):
                    seen.append(1)
                    ok = all([shape_is("power u1", power_u1, (N, n2.v)), shape_is("power u2", power_u2, (N, n2.v)), shape_is("k1 grid", k1_grid, (N, n2.v))])
                    if not ok: raise PathEnd()
                    m = k1_pos.shape_[0]
                    j, r, c = index(m, N, n2.v)
                    ctx.assume(lt(add(j, ONE), half))        # below Nyquist
                    cond = lt(app("abs", sub(k1_grid.elem((r, c)), k1_pos.elem((j,)))), val(k_tol))
                    holds("rows selected: exactly those of the wavenumber", iff(cond, eq(r, add(j, ONE))))
                    def out(P):
                        g = P.getter()
                        def f(idx):
                            c = fresh("c", "I"); return mul(val(scaling_factor), sum_(c, n2.v, g((add(idx[0], ONE), c))))
                        return SArr((m,), f, "f")
                    return out(power_u1), out(power_u2)
            g = bare(G, u1=arr("u1", n1, n2), u2=arr("u2", n1, n2), user_N1=n1, user_N2=n2, user_dx=dx, user_dy=dy, user_L1=L1, user_L2=dy * n2)
            k, F11, F22 = g.compute_spectrum(tol)
            concrete("one summation", len(seen) == 1)
            holds("a value for every wavenumber below Nyquist", ge(val(k.shape[0]), sub(half, ONE)))
            if not (shape_is("F11", F11, k.shape_) and shape_is("F22", F22, k.shape_)): return
            j, = index(k.shape_[0]); ctx.assume(lt(add(j, ONE), half))
            same("wavenumbers in increasing order", S(k.elem((j,))), S(mul(add(j, ONE), step)))
            for nm, F in (("u1", F11), ("u2", F22)):
                W = shims.fft2(arr(nm, n1, n2)); c = fresh("c", "I")
                w = W.elem((add(j, ONE), c)); p = vabs2(w)
                want = mul(div(L1.v, mul(const(2), PI, sq(mul(N, n2.v)))), sum_(c, n2.v, p))
                same("spectrum of %s" % nm, S(F.elem((j,))), S(want)); holds("spectrum of %s is non-negative" % nm, ge(F.elem((j,)), ZERO))
        return body
    chk.case("estimator, even number of points", estimator(True))
    def theory(kind):
        def body():
            M = chk.load(LF); c, L, psi, z = pos("c"), pos("L2d"), real("psi"), pos("zi"); lim = real("limit")
            m = nat("m", 0); K = arr("K", m, kind=kind)
            g = bare(M.LowFreqGenerator, c=c, L_2d=L, psi=psi, z_i=z)
            i0, = index(m)
            calls = {}
            def hook(f, a, b, args=()):
                same("lower limit", S(val(a)), S(neg(app("abs", lim.v)))); same("upper limit", S(val(b)), S(app("abs", lim.v)))
                k1 = val(args[0]); k2 = real("k2")
                kk = add(sq(k1), sq(k2.v)); kap2 = mul(const(2), add(mul(sq(app("cos", psi.v)), sq(k1)), mul(sq(app("sin", psi.v)), sq(k2.v))))
                den = shape_fn(L.v, z.v, kap2)
                for x in (ge(kk, q(1, 10**24)), ge(kap2, q(1, 10**24)), ge(den, q(1, 10**30))): ctx.assume(x)
                E = div(mul(c.v, powc(sqrt(kap2), 3)), den); base = div(E, mul(PI, sqrt(kk), kk))
                n = calls.get(k1, 0); calls[k1] = n + 1     # first integral of an entry: u, second: v
                same("integrand of the %s spectrum" % ("u", "v")[n % 2], f(k2, *args), S(mul(base, sq(k2.v) if n % 2 == 0 else sq(k1))))
                return S(uf("quad%d" % (n % 2), k1), "f"), S(uf("quaderr%d" % (n % 2), k1), "f")
            ctx.State.hooks["quad"] = hook
            F11, F22 = g.analytical_spectrum(K, k2_limit=lim)
            for nm, F, n in (("u", F11, 0), ("v", F22, 1)):
                if not shape_is(nm, F, (m.v,)): continue
                k1 = uf("K", i0, sort="I" if kind == "i" else "R")
                if decide(lt(app("abs", k1), q(1, 10**15))): same("zero entry, " + nm, S(F.elem((i0,))), S(ZERO))
                else: same("entry of every requested k1, " + nm, S(F.elem((i0,))), S(uf("quad%d" % n, k1)))
        return body
    chk.case("theory", theory("f")); chk.case("theory, integer wavenumbers", theory("i"))
if __name__ == "__main__": main("C16", contract)
