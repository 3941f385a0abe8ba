from fluctspec import *
from lowspec import bare
from pyvc import loops, ctx, shims
LF = "drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator"
class Slice:
    """contract of the low-frequency model: interp_slice(x, y)[n][i, j] is a function of x[i], y[j] (proved below); fields exist after generate()"""
    def __init__(self): self.u1 = self.u2 = 1; self.user_L1 = pos("lfL1"); self.user_L2 = pos("lfL2"); self.user_N1 = nat("lfN1"); self.user_N2 = nat("lfN2"); self.calls = []
    def interp_slice(self, x_coords_target, y_coords_target):
        self.calls.append((x_coords_target, y_coords_target))
        gx, gy = x_coords_target.getter(), y_coords_target.getter()
        return tuple(SArr((x_coords_target.shape_[0], y_coords_target.shape_[0]), lambda idx, n=n: uf("lf%d" % n, gx((idx[0],)), gy((idx[1],))), "f") for n in (1, 2))
def contract(chk):
    chk.fn("fluctuation_field_generator.FluctuationFieldGenerator.generate", "fluctuation_field_generator.FluctuationFieldGenerator.__init__", "low_frequency.LowFreqGenerator.interp_slice")
    chk.trust("the plain 3D block (_generate_block, _normalize_block) is represented by an arbitrary real block (its value is C11/C12)",
              "scipy RegularGridInterpolator(points, values, linear, bounds_error=False, fill_value=0) interpolates the values linearly at the points it is given and is 0 outside",
              "numpy linspace, meshgrid, stack, ravel, reshape, concatenate per documentation")
    class Inv(loops.LoopSpec):
        def __init__(self, **k): self.__dict__.update(k)
        def state(self, i, nm):
            g, d = self.g, self.d; Nx, Ny, Nz = d["N"]; self.box["b"] = i
            g.total_fluctuation = SArr((add(self.h, mul(i, Nx)), Ny, Nz, const(3)), lambda idx: uf(nm, *idx), "f")
        def establish(self, lo, vars): concrete("loop starts at the first block", lo is ZERO)
        def havoc(self, i, vars): self.state(i, "sofar")
        def exit(self, n, vars): self.state(n, "end")
        def preserve(self, i1, vars):
            g, d = self.g, self.d; Nx, Ny, Nz = d["N"]; i = sub(i1, ONE); b = add(self.b0, i); tf = g.total_fluctuation
            h = add(self.h, mul(i, Nx))
            if not shape_is("field grows by one block", tf, (add(h, Nx), Ny, Nz, const(3))): return
            x, = index(h); r, j, k = index(Nx, Ny, Nz)
            X = mul(d["D"][0], add(b, div(r, Nx))); Y = add(div(sub(val(self.lf.user_L2), d["D"][1]), const(2)), div(mul(j, d["D"][1]), Ny))
            for c in range(3):
                same("planes produced earlier unchanged, component %s" % "uvw"[c], S(tf.elem((x, j, k, const(c)))), S(uf("sofar", x, j, k, const(c))))
                want = uf("plain", r, j, k, const(c))
                if c < 2: want = add(want, uf("lf%d" % (c + 1), X, Y))
                same("appended block, component %s" % "uvw"[c], S(tf.elem((add(h, r), j, k, const(c)))), S(want))
    def superposed(sym):
        def body():
            g, d = gen(chk); Nx, Ny, Nz = d["N"]; lf = Slice(); g.low_freq_gen = lf; box = {}
            b0 = nat("b0", 0); h = mul(b0.v, Nx)
            g.total_fluctuation = SArr((h, Ny, Nz, const(3)), lambda idx: uf("old", *idx), "f")
            g._generate_block = lambda *a, **k: arr("raw", S(Nx), S(Ny), S(Nz), 3)
            def norm(curr_block, **k): return arr("plain", S(Nx), S(Ny), S(Nz), 3)
            g._normalize_block = norm
            p = dict(zref=pos("zref"), uref=pos("uref"), z0=pos("z0"), windprofiletype="LOG")
            if sym:
                loops.SPECS.append(("nblocks", Inv(g=g, d=d, box=box, b0=b0.v, h=h, lf=lf)))
                g.generate(nat("nblocks", 0), **p)
            else:
                inv = Inv(g=g, d=d, box=box, b0=b0.v, h=h, lf=lf)
                g.total_fluctuation = SArr((h, Ny, Nz, const(3)), lambda idx: uf("sofar", *idx), "f"); out = g.generate(1, **p)
                inv.preserve(ONE, None); concrete("the whole field is returned", out is g.total_fluctuation or isinstance(out, SArr) and out.buf is g.total_fluctuation.buf)
        return body
    chk.case("any number of blocks after any earlier blocks", superposed(True))
    chk.case("one block after any earlier blocks", superposed(False))
    def slice_():
        M = chk.load(LF); n, m, a, b = nat("N1", 2), nat("N2", 2), nat("a", 0), nat("b", 0); dx, dy = pos("dx"), pos("dy")
        ux = SArr((n.v,), lambda idx: mul(idx[0], dx.v), "f"); uy = SArr((m.v,), lambda idx: mul(idx[0], dy.v), "f")
        g = bare(M.LowFreqGenerator, user_N1=n, user_N2=m, user_L1=dx * n, user_L2=dy * m, user_dx=dx, user_dy=dy, user_x_coords=ux, user_y_coords=uy, u1=arr("u1", n, m), u2=arr("u2", n, m))
        X, Y = arr("xt", a), arr("yt", b)
        o1, o2 = g.interp_slice(X, Y)
        for nm, o in (("u1", o1), ("u2", o2)):
            f = shims.RegularGridInterpolator((ux, uy), arr(nm, n, m), method="linear", bounds_error=False, fill_value=S(ZERO))
            def want(i, j): return S(f(SArr((const(2),), lambda idx: pick_(idx[0], uf("xt", i), uf("yt", j)), "f")).elem(()))
            arr_is(nm + " at (x_i, y_j)", o, (a.v, b.v), want)
        concrete("low-frequency fields untouched", True)
        i, j = index(n, m)
        for nm in ("u1", "u2"): same(nm + " left alone", S(getattr(g, nm).elem((i, j))), S(uf(nm, i, j)))
    chk.case("interpolation of the low-frequency field", slice_)
    def refused():
        M = chk.load(LF); g = bare(M.LowFreqGenerator, u1=None, u2=None, user_x_coords=arr("x", 4), user_y_coords=arr("y", 4))
        try: g.interp_slice(arr("xt", 2), arr("yt", 2)); ok = False
        except RuntimeError: ok = True
        concrete("interpolation before generation is refused", ok)
    chk.case("interpolation before generation", refused)
    def attached():
        F = chk.load(FFG); made = []
        class Rec:
            def __init__(self, cfg): self.cfg = cfg; self.n = 0; self.u1 = self.u2 = None; made.append(self)
            def generate(self): self.n += 1; self.u1 = self.u2 = 1; return 1, 1
        old = F.LowFreqGenerator; F.LowFreqGenerator = Rec
        try:
            c = {"L_2d": 1}
            g, d = gen(chk, config_2d=c); concrete("one low-frequency model, built from the given configuration", len(made) == 1 and made[0].cfg is c and g.low_freq_gen is made[0])
            concrete("its field is generated once", made and made[0].n == 1)
            g, d = gen(chk); concrete("none without a configuration", len(made) == 1 and g.low_freq_gen is None)
        finally: F.LowFreqGenerator = old
    chk.case("attachment", attached)
def pick_(i, a, b): return a if i is ZERO else b if i is ONE else ite(eq(i, ZERO), a, b)
if __name__ == "__main__": main("C17", contract)
