from spec import *
DG = "drdmannturb.spectra_fitting.data_generator"
def contract(chk):
    D = chk.load(DG)
    chk.fn("data_generator.generate_kaimal_spectra", "data_generator.generate_von_karman_spectra")
    chk.trust("torch.zeros, indexing assignment, broadcasting per documentation")
    numev.declare("k1", "pos")
    def data():
        n = nat("N"); k1 = arr("k1", n, lib="t"); return n, k1
    def entries(d, n, k1, F):
        concrete("returned mapping has k1 and ops", isinstance(d, dict) and "k1" in d and "ops" in d)
        arr_is("k1 returned unchanged", d["k1"], (n,), lambda i: S(uf("k1", i)))
        ops = d["ops"]
        if not shape_is("ops", ops, (n, 3, 3)): return
        (i,) = index(n)
        x = uf("k1", i); ctx.assume(gt(x, ZERO))
        for a in range(3):
            for b in range(3):
                same("ops[i,%d,%d]" % (a, b), S(ops.elem((i, const(a), const(b)))), S(F(x, a, b)))
        return i, x, ops
    def kaimal():
        n, k1 = data(); z, u = pos("zref"), pos("ustar")
        d = D.generate_kaimal_spectra(k1, z, u)
        def F(x, a, b):
            m = div(mul(x, z.v), mul(q(2), PI)); u2 = sq(u.v)
            if (a, b) == (0, 0): return mul(u2, div(mul(q(105, 2), m), powc(add(ONE, mul(q(33), m)), Fr(5, 3))))
            if (a, b) == (1, 1): return mul(u2, div(mul(q(17, 2), m), powc(add(ONE, mul(q(19, 2), m)), Fr(5, 3))))
            if (a, b) == (2, 2): return mul(u2, div(mul(q(21, 20), m), add(ONE, mul(q(53, 10), powc(m, Fr(5, 3))))))
            if (a, b) == (0, 2): return mul(u2, div(mul(q(-7), m), powc(add(ONE, mul(q(48, 5), m)), Fr(12, 5))))
            return ZERO
        r = entries(d, n, k1, F)
        if r:
            i, x, ops = r
            for a in range(3): holds("ops[i,%d,%d] > 0" % (a, a), gt(E_(S(ops.elem((i, const(a), const(a))))), ZERO))
            holds("ops[i,0,2] < 0", lt(E_(S(ops.elem((i, ZERO, const(2))))), ZERO))
    chk.case("Kaimal", kaimal)
    def kscale():
        n, k1 = data(); z, u, c = pos("zref"), pos("ustar"), pos("c")
        k2 = arr("k1s", n, lib="t")
        d1 = D.generate_kaimal_spectra(k1, z, u)["ops"]; d2 = D.generate_kaimal_spectra(k1 * c, z / c, u)["ops"]
        (i,) = index(n); ctx.assume(gt(uf("k1", i), ZERO))
        for a, b in ((0, 0), (1, 1), (2, 2), (0, 2)): same("depends on k1 z only [%d,%d]" % (a, b), S(d1.elem((i, const(a), const(b)))), S(d2.elem((i, const(a), const(b)))))
    chk.case("Kaimal scaling", kscale)
    def vk():
        n, k1 = data(); L, C = pos("L"), pos("C")
        d = D.generate_von_karman_spectra(k1, L, C)
        def F(x, a, b):
            if a != b: return ZERO
            den = add(powc(L.v, -2), sq(x))
            if a == 0: return mul(x, q(9, 55), C.v, powc(den, Fr(-5, 6)))
            return mul(x, q(3, 110), C.v, add(mul(q(3), powc(L.v, -2)), mul(q(8), sq(x))), powc(den, Fr(-11, 6)))
        r = entries(d, n, k1, F)
        if r:
            i, x, ops = r
            F11 = E_(S(ops.elem((i, ZERO, ZERO))))
            den = add(powc(L.v, -2), sq(x))
            # d/dk1 of (9/55) C (L^-2+k1^2)^(-5/6)
            dF = mul(q(9, 55), C.v, q(-5, 6), q(2), x, powc(den, Fr(-11, 6)))
            for a in (1, 2): same("isotropy relation F%d%d = (F11 - k1 F11')/2" % (a + 1, a + 1), S(E_(S(ops.elem((i, const(a), const(a)))))), S(mul(x, q(1, 2), sub(div(F11, x), mul(x, dF)))))
    chk.case("von Karman", vk)
if __name__ == "__main__": main("C18", contract)
