from fluctspec import *
def profile(kind, z, p):
    if kind == "LOG": return div(mul(p["uref"], app("log", add(div(z, p["z0"]), ONE))), app("log", div(p["zref"], p["z0"])))
    return mul(p["uref"], app("rpow", div(z, p["zref"]), p["plexp"]))
def contract(chk):
    chk.fn("fluctuation_field_generator.FluctuationFieldGenerator.generate", "fluctuation_field_generator.FluctuationFieldGenerator._normalize_block", "fluctuation_field_generator.FluctuationFieldGenerator.log_law", "fluctuation_field_generator.FluctuationFieldGenerator.power_law")
    chk.trust("numpy mean, sqrt, linspace, tile, zeros_like, concatenate per documentation", "the random field is represented by its contract (arbitrary real field of the noise's shape), proved separately in C13")
    def rms(f, *dims):
        ix = [fresh("m", "I") for _ in dims]; r = sq(f(*ix))
        for i, n in list(zip(ix, dims))[::-1]: r = sum_(i, n, r)
        return sqrt(div(r, mul(*dims)))
    def params(kind, plexp=True):
        p = dict(zref=pos("zref"), uref=pos("uref"), z0=pos("z0")); ctx.assume(ne(p["zref"].v, p["z0"].v))
        p["plexp"] = real("alpha") if plexp else None
        return p
    def kw(kind, p): return dict(zref=p["zref"], uref=p["uref"], z0=p["z0"], windprofiletype=kind, **({} if p["plexp"] is None else {"plexp": p["plexp"]}))
    def height(d, k): return div(mul(k, d["D"][2]), sub(d["N"][2], ONE))
    def check(name, out, f, shape, d, kind, p):
        if not shape_is(name, out, tuple(shape) + (const(3),)): return
        i, j, k = index(*shape); sd = rms(f, *shape, const(3)); pv = {a: b.v for a, b in p.items() if b is not None}
        for c in range(3):
            want = div(f(i, j, k, const(c)), sd)
            if c == 0: want = add(want, profile(kind, height(d, k), pv))
            same("%s, component %s" % (name, "uvw"[c]), S(out.elem((i, j, k, const(c)))), S(want))
    def only_empty(box):
        def r(exc, p): return [not_(box["any"])] if isinstance(exc, ValueError) and "any" in box else None
        return r
    def direct(kind, plexp):
        box = {}
        def body():
            g, d = gen(chk); p = params(kind, plexp); n, m = nat("n", 0), nat("m", 0)
            blk = arr("blk", n, m, S(d["N"][2]), 3)
            box["any"] = tob(val(shims.np_anyall("any")(blk)))
            out = g._normalize_block(blk, **kw(kind, p))
            check("normalised block", out, lambda *a: uf("blk", *a), (n.v, m.v, d["N"][2]), d, kind, p)
        chk.case("any block, %s%s" % (kind, "" if plexp or kind == "PL" else ", no exponent"), body, raises=only_empty(box))
    direct("LOG", False); direct("LOG", True); direct("PL", True)
    def through(kind):
        box = {}
        def body():
            g, d = gen(chk); p = params(kind, kind == "PL"); h = nat("h", 0)
            Nx, Ny, Nz = d["N"]
            g.total_fluctuation = arr("old", h, S(Ny), S(Nz), 3)
            seen = []
            orig = getattr(g, "_generate_block")
            def block():
                k = len(seen); b = arr("blk%d" % k, S(Nx), S(Ny), S(Nz), 3); seen.append(k); box["any"] = tob(val(shims.np_anyall("any")(b))); return b
            g._generate_block = block
            out = g.generate(1, **kw(kind, p))
            if not shape_is("field", out, (add(h.v, Nx), Ny, Nz, const(3))): return
            check("appended block", out[h:, ...], lambda *a: uf("blk0", *a), (Nx, Ny, Nz), d, kind, p)
        chk.case("appended block, %s" % kind, body, raises=only_empty(box))
    through("LOG"); through("PL")
    def rejects(name, mk, kind="LOG", plexp=True, field=None):
        def body():
            g, d = gen(chk); p = params(kind, plexp); k = kw(kind, p); k.update(mk())
            blk = field(d) if field else arr("blk", nat("n", 0), nat("m", 0), S(d["N"][2]), 3)
            try: g._normalize_block(blk, **k); ok = False
            except (ValueError, AssertionError, TypeError): ok = True
            concrete("rejected: " + name, ok)
        chk.case("rejected: " + name, body)
    def nonpos(nm):
        x = real(nm + "_bad"); ctx.assume(le(x.v, ZERO)); return {nm: x}
    for nm in ("zref", "uref", "z0"):
        for kind in ("LOG", "PL"): rejects("non-positive %s, %s" % (nm, kind), lambda nm=nm: nonpos(nm), kind)
    for bad in ("log", "", "POWER", None): rejects("profile name %r" % (bad,), lambda bad=bad: {"windprofiletype": bad})
    rejects("power law without exponent", lambda: {}, "PL", False)
    rejects("all-zero block", lambda: {}, field=lambda d: shims.zeros((nat("n", 0), nat("m", 0), S(d["N"][2]), 3)))
    rejects("block without planes", lambda: {}, field=lambda d: arr("blk", 0, S(d["N"][1]), S(d["N"][2]), 3))
if __name__ == "__main__": main("C12", contract)
