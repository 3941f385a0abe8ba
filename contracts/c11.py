from fluctspec import *
from pyvc import loops, ctx, shims
class StreamField(FieldContract):
    """contract of the random field: sample_noise returns the next planes of one noise stream; sample(noise) is a real field of the
    noise's shape determined by the noise (C13), and does not touch the noise"""
    def __init__(self): super().__init__(); self.cnt = ZERO; self.shapes = []
    def sample_noise(self, grid_shape=None):
        sh = shims.shape_of(grid_shape); c = self.cnt; self.cnt = add(c, sh[0]); self.shapes.append(sh)
        return SArr(sh, lambda idx: uf("stream", add(c, idx[0]), *idx[1:]), "f")
    def reseed(self, seed=None):
        """back to the start of the stream of that seed"""
        if seed is None or seed is not self.seed: raise Unsupported("stream of another seed")
        self.cnt = ZERO
    def sample(self, noise=None):
        """precondition: the noise is the window of the stream belonging to the next block; result: a field determined by that window"""
        start, P = self.expect
        if shape_is("noise handed to the sampler", noise, P):
            w = index(*P); same("noise handed to the sampler is the next window of the stream", S(noise.elem(tuple(w))), S(uf("stream", add(start, w[0]), *w[1:])))
        return SArr(P, lambda idx: uf("window", start, *idx), "f")
def contract(chk):
    chk.fn("fluctuation_field_generator.FluctuationFieldGenerator.__init__", "fluctuation_field_generator.FluctuationFieldGenerator.generate", "fluctuation_field_generator.FluctuationFieldGenerator._generate_block", "fluctuation_field_generator.FluctuationFieldGenerator._normalize_block")
    chk.trust("numpy roll, concatenate, slicing, any, mean per documentation", "the random field is represented by its contract: fresh noise is the next part of one stream, sample() is a function of the noise (proved in C13)")
    def fixed(g, d):
        """per-block geometry from the settings alone"""
        dx, dy, dz = [div(d["D"][i], d["N"][i]) for i in range(3)]
        nb = app("ceil", div(mul(q(3), d["T"], d["L"]), dx)); my, mz = app("ceil", div(d["L"], dy)), app("ceil", div(d["L"], dz))
        for v in (nb, my, mz): ctx.assume(ge(v, ONE))      # ceil of a positive number
        ext = ite(gt(d["blend"], ZERO), sub(d["blend"], ONE), ZERO)
        return nb, my, mz, (add(d["N"][0], mul(q(2), nb), ext), add(d["N"][1], mul(q(2), my)), add(d["N"][2], mul(q(2), mz)), const(3))
    def raw(d, geo, b, idx):
        """element idx of block b (counted over the life of the object) before normalisation: central part of the field sampled from its noise window"""
        nb, my, mz, P = geo
        return uf("window", mul(b, d["N"][0]), *(add(idx[0], nb), add(idx[1], my), idx[2], idx[3]))
    def spec(d, geo, b, p, kind, idx):
        Nx, Ny, Nz = d["N"]; fs = [fresh("m", "I") for _ in range(3)]
        tot = ZERO
        body = add(*[sq(raw(d, geo, b, tuple(fs) + (const(c),))) for c in range(3)])
        for f, n in list(zip(fs, (Nx, Ny, Nz)))[::-1]: body = sum_(f, n, body)
        sd = sqrt(div(body, mul(Nx, Ny, Nz, const(3)))); r = div(raw(d, geo, b, idx), sd)
        if idx[3] is ZERO:
            z = div(mul(idx[2], d["D"][2]), sub(Nz, ONE))
            r = add(r, div(mul(p["uref"].v, app("log", add(div(z, p["z0"].v), ONE))), app("log", div(p["zref"].v, p["z0"].v))) if kind == "LOG" else mul(p["uref"].v, app("rpow", div(z, p["zref"].v), p["plexp"].v)))
        return r
    def params(kind):
        p = dict(zref=pos("zref"), uref=pos("uref"), z0=pos("z0")); ctx.assume(ne(p["zref"].v, p["z0"].v))
        if kind == "PL": p["plexp"] = pos("alpha")          # C12 covers every exponent
        return p
    def zero_only(exc, p):
        """the only error allowed is the rejection of an all-zero block"""
        return True if isinstance(exc, ValueError) and "No fluctuation field" in str(exc) and any(x.op == "not" or x.op == "le" for x in p.pc) else None
    class Inv(loops.LoopSpec):
        def __init__(self, g, d, geo, b0, h, old, xq, xr, comp):
            self.__dict__.update(g=g, d=d, geo=geo, b0=b0, h=h, old=old, q=xq, r=xr, comp=comp)
        def point(self): return add(self.h, mul(self.q, self.d["N"][0]), self.r)
        def state(self, i, k):
            """arbitrary state satisfying the invariant after i blocks"""
            g, d, geo = self.g, self.d, self.geo; Nx, Ny, Nz = d["N"]; b = add(self.b0, i); P = geo[3]
            if decide(eq(b, ZERO)): g.noise = None; g.RF.cnt = ZERO
            else:
                st = mul(sub(b, ONE), Nx)
                g.noise = SArr(P, lambda idx: uf("stream", add(st, idx[0]), *idx[1:]), "f"); g.RF.cnt = add(P[0], st)
            g.RF.expect = (mul(b, Nx), P)
            nm = "field!%s" % k
            # earlier planes are the old ones, appended planes are unknown except at the point under proof
            g.total_fluctuation = SArr((add(self.h, mul(i, Nx)), Ny, Nz, const(3)), lambda idx: vite(lt(idx[0], self.h), self.old(idx), uf(nm, *idx)), "f")
            ix = (self.point(),) + self.ix
            for c in range(3): ctx.assume(or_(ge(self.q, i), eq(uf(nm, *ix, const(c)), uf("block", self.q, self.r, *self.ix, const(c)))))
        def establish(self, lo, vars):
            concrete("loop starts at the first block", lo is ZERO)
        def havoc(self, i, vars): self.state(i, "i")
        def preserve(self, i1, vars):
            g, d, geo = self.g, self.d, self.geo; Nx, Ny, Nz = d["N"]; b1 = add(self.b0, i1); P = geo[3]; i = sub(i1, ONE)
            # noise window and stream position
            st = mul(sub(b1, ONE), Nx)
            if shape_is("noise window", g.noise, P):
                w = index(*P); same("noise window is the previous one shifted by one block, new part fresh", S(g.noise.elem(tuple(w))), S(uf("stream", add(st, w[0]), *w[1:])))
            same("noise drawn so far", S(g.RF.cnt), S(add(P[0], st)))
            tf = g.total_fluctuation
            if not shape_is("field grows by one block", tf, (add(self.h, mul(i1, Nx)), Ny, Nz, const(3))): return
            # earlier planes untouched (old field and already appended blocks)
            x, = index(add(self.h, mul(i, Nx)))
            for c in range(3):
                e = (x,) + self.ix + (const(c),)
                same("planes produced earlier unchanged, component %d" % c, S(tf.elem(e)), S(vite(lt(x, self.h), self.old(e), uf("field!i", *e))))
            # the appended planes
            r, = index(Nx)
            for c in range(3):
                same("appended block, component %d" % c, S(tf.elem((add(self.h, mul(i, Nx), r),) + self.ix + (const(c),))), S(self.spec(add(self.b0, i), (r,) + self.ix + (const(c),))))
        def exit(self, n, vars): self.state(n, "n")
    def history(kind, with_old, seeded):
        def body():
            g, d = gen(chk, seed=nat("seed", 0) if seeded else None); p = params(kind); geo = fixed(g, d); Nx, Ny, Nz = d["N"]
            g.RF = StreamField(); g.RF.seed = g.seed
            b0 = nat("b0", 0) if with_old else S(ZERO); h = nat("h", 0) if with_old else S(ZERO)
            old = lambda idx: uf("old", *idx)
            prev = SArr((h.v, Ny, Nz, const(3)), old, "f"); g.total_fluctuation = prev
            n = nat("nblocks", 0); qq, = index(n); r, j, k = index(Nx, Ny, Nz)
            inv = Inv(g, d, geo, b0.v, h.v, old, qq, r, None); inv.ix = (j, k)
            inv.spec = lambda b, idx: spec(d, geo, b, p, kind, idx)
            loops.SPECS.append(("nblocks", inv))
            if decide(eq(b0.v, ZERO)): pass
            else:
                st = mul(sub(b0.v, ONE), Nx); P = geo[3]
                g.noise = SArr(P, lambda idx: uf("stream", add(st, idx[0]), *idx[1:]), "f"); g.RF.cnt = add(P[0], st)
            out = g.generate(n, **{a: b for a, b in p.items()}, windprofiletype=kind)
            if not shape_is("returned field", out, (add(h.v, mul(n.v, Nx)), Ny, Nz, const(3))): return
            concrete("the whole field is returned", out is g.total_fluctuation)
            x, = index(h.v)
            for c in range(3):
                same("planes of earlier calls, component %d" % c, S(out.elem((x, j, k, const(c)))), S(old((x, j, k, const(c)))))
                same("plane r of block q, component %d" % c, S(out.elem((add(h.v, mul(qq, Nx), r), j, k, const(c)))), S(uf("block", qq, r, j, k, const(c))))
                same("array returned earlier untouched, component %d" % c, S(prev.elem((x, j, k, const(c)))), S(old((x, j, k, const(c)))))
        chk.case("any number of blocks, %s, %s, %s" % ("seeded" if seeded else "unseeded", kind, "after any number of earlier blocks" if with_old else "new object"), body, raises=zero_only, budget=60)
    history("LOG", True, True); history("PL", True, False)
    def seeding():
        """the stream belongs to the seed given (every non-negative seed)"""
        sd = nat("seed", 0); g, d = gen(chk, seed=sd, rf=False)
        ps = [x for x in vars(g.RF).values() if isinstance(x, shims.RandomState)]
        if not ps: raise Unsupported("random state of the field not found")
        concrete("the noise stream is the one of the given seed", all(x.seeded is not None and val(x.seeded) is sd.v for x in ps))
    chk.case("seeding", seeding)
if __name__ == "__main__": main("C11", contract)
