from fluctspec import *
from lowspec import bare
WP = "drdmannturb.fluctuation_generation.wind_plot"
class Rec:
    """records the calls made on a plotting / export library"""
    def __init__(self, log, name=""): self._l = log; self._n = name
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Rec(self._l, n)
    def __call__(self, *a, **k): r = Rec(self._l, self._n); r.call = (self._n, a, k); self._l.append(r.call); return r
def contract(chk):
    chk.fn("fluctuation_field_generator.FluctuationFieldGenerator.evaluate_divergence", "fluctuation_field_generator.FluctuationFieldGenerator.save_to_vtk", "wind_plot.create_grid", "wind_plot.format_wind_field", "wind_plot.plot_velocity_components", "wind_plot.plot_velocity_magnitude")
    chk.trust("numpy gradient: second-order central differences inside, first-order one-sided at the two ends (numpy documentation, default edge order)", "pyevtk imageToVTK writes the cell data it is given with the spacing it is given", "plotly draws the traces it is given", "numpy copy, meshgrid, flatten per documentation")
    def deriv(f, idx, a, n, h):
        at = lambda e: f(*(idx[:a] + (e,) + idx[a + 1:])); i = idx[a]
        return ite(eq(i, ZERO), div(sub(at(ONE), at(ZERO)), h), ite(eq(i, sub(n, ONE)), div(sub(at(sub(n, ONE)), at(sub(n, const(2)))), h), div(sub(at(add(i, ONE)), at(sub(i, ONE))), mul(const(2), h))))
    def divergence(own, sp_kind):
        def body():
            g, d = gen(chk); n = [nat("n%d" % a, 2) for a in range(3)]; h = [pos("h%d" % a) for a in range(3)]; f = arr("f", *n, 3)
            sp = tuple(h) if sp_kind == "tuple" else SArr.from_list(PList(h), lib="np")
            if own: g.total_fluctuation = f; out = g.evaluate_divergence(sp)
            else: g.total_fluctuation = arr("other", *n, 3); out = g.evaluate_divergence(sp, f)
            def want(*ix):
                return S(add(*[deriv(lambda *e, a=a: uf("f", *e, const(a)), ix, a, n[a].v, h[a].v) for a in range(3)]))
            arr_is("divergence", out, [x.v for x in n], want)
            ix = index(*[x.v for x in n]); 
            for c in range(3): same("field left alone, component %d" % c, S(f.elem(tuple(ix) + (const(c),))), S(uf("f", *ix, const(c))))
        return body
    chk.case("divergence of a given field", divergence(False, "tuple")); chk.case("divergence of the generated field", divergence(True, "array"))
    def refuse(name, mk):
        def body():
            g, d = gen(chk); sp, f = mk()
            try: g.evaluate_divergence(sp, f); ok = False
            except ValueError: ok = True
            concrete("rejected: " + name, ok)
        chk.case("rejected: " + name, body)
    n3 = lambda: [nat("n%d" % a, 2) for a in range(3)]
    for k in (0, 1, 2, 4, 5): refuse("%d spacings" % k, lambda k=k: (tuple(pos("h%d" % a) for a in range(k)), arr("f", *n3(), 3)))
    def other():
        m = nat("m", 0); ctx.assume(ne(m.v, const(3))); return tuple(pos("h%d" % a) for a in range(3)), arr("f", *n3(), m)
    refuse("last axis of any extent but 3", other)
    def vtk():
        g, d = gen(chk); n = [nat("n%d" % a) for a in range(3)]; f = arr("f", *n, 3); g.total_fluctuation = f; path = "out/field"
        log = []
        ctx.State.hooks["imageToVTK"] = lambda *a, **k: log.append((a, k))
        g.save_to_vtk(path)
        concrete("one file is written", len(log) == 1)
        if len(log) != 1: return
        a, k = log[0]; k = dict(zip(("path", "origin", "spacing", "cellData", "pointData", "fieldData"), a), **k)
        concrete("at the given path", k["path"] == path); concrete("origin not moved", k.get("origin", (0, 0, 0)) == (0, 0, 0))
        sp = k["spacing"]
        sp = list(sp)
        concrete("three spacings", len(sp) == 3)
        for i in range(3): same("spacing along axis %d" % i, sp[i], S(div(d["D"][i], d["N"][i])))
        w = k["cellData"]["wind"]; concrete("three components", isinstance(w, tuple) and len(w) == 3)
        for c in range(3): arr_is("component %s" % "uvw"[c], w[c], [x.v for x in n], lambda *ix, c=c: S(uf("f", *ix, const(c))))
    chk.case("VTK export", vtk)
    def grid():
        M = chk.load(WP); n = [nat("n%d" % a) for a in range(3)]; h = tuple(pos("h%d" % a) for a in range(3))
        out = M.create_grid(h, tuple(n)); concrete("three coordinate arrays", len(out) == 3)
        for a in range(3): arr_is("coordinate %s" % "xyz"[a], out[a], [x.v for x in n], lambda *ix, a=a: S(mul(h[a].v, ix[a])))
    chk.case("plotting grid", grid)
    def fmt():
        M = chk.load(WP); n = [nat("n%d" % a) for a in range(3)]; f = arr("f", *n, 3)
        out = M.format_wind_field(f); concrete("three components", len(out) == 3); ix = index(*[x.v for x in n])
        for c in range(3): arr_is("component %s" % "uvw"[c], out[c], [x.v for x in n], lambda *i, c=c: S(uf("f", *i, const(c))))
        for c in range(3):
            out[c][...] = 7.0
            for e in range(3): same("writing component %d of the copy leaves the field alone (%d)" % (c, e), S(f.elem(tuple(ix) + (const(e),))), S(uf("f", *ix, const(e))))
        f[...] = 3.0
        for c in range(3): same("writing the field leaves the copy alone (%d)" % c, S(out[c].elem(tuple(ix))), S(const(7)))
    chk.case("formatted wind field", fmt)
    def plot(which, re):
        def body():
            M = chk.load(WP); n = [nat("n%d" % a) for a in range(3)]; h = tuple(pos("h%d" % a) for a in range(3))
            f = arr("f", *n, 3) if re else None
            if not re: return
            log = []; saved = (M.go, M.make_subplots); M.go = Rec(log, "go"); M.make_subplots = Rec(log, "make_subplots")
            try: getattr(M, which)(h, f)
            finally: M.go, M.make_subplots = saved
            v = [c[2] for c in log if c[0] == "Volume"]; k = 3 if which == "plot_velocity_components" else 1
            concrete("number of volumes", len(v) == k)
            if len(v) != k: return
            dims = [x.v for x in n]; tot = mul(*dims); t_ = S(ctx.fresh("flat")); ctx.assume(and_(le(ZERO, t_.v), lt(t_.v, tot)))
            from pyvc.sym import unravel_index
            ix = unravel_index(t_.v, dims)
            for t, q_ in enumerate(v):
                for a, nm in enumerate("xyz"):
                    if shape_is("coordinates " + nm, q_[nm], (tot,)): same("coordinate %s of volume %d" % (nm, t), S(q_[nm].elem((t_.v,))), S(mul(h[a].v, ix[a])))
                val_ = uf("f", *ix, const(t)) if k == 3 else sqrt(add(*[sq(uf("f", *ix, const(c))) for c in range(3)]))
                if shape_is("values", q_["value"], (tot,)): same("value of volume %d" % t, S(q_["value"].elem((t_.v,))), S(val_))
        return body
    chk.case("component plot", plot("plot_velocity_components", True)); chk.case("magnitude plot", plot("plot_velocity_magnitude", True))
if __name__ == "__main__": main("C20", contract)
