from calspec import *
def contract(chk):
    chk.fn("one_point_spectra.OnePointSpectra.__init__", "one_point_spectra.OnePointSpectra.exp_scales", "calibration.CalibrationProblem.__init__", "calibration.CalibrationProblem.parameters (getter and setter)", "calibration.CalibrationProblem.log_dimensional_scales")
    chk.trust("torch: Module parameter registration order, parameters_to_vector and vector_to_parameters per documentation")
    KINDS = ("TAUNET", "CONST", "MANN", "TWOTHIRD", "MANN_APPROX")
    def scales(o, d, what):
        r = o.exp_scales()
        concrete(what + ": three scales", len(r) == 3)
        for x, nm, y in zip(r, ("length", "time", "magnitude"), (d["L"], d["G"], d["M"])): same("%s: %s scale" % (what, nm), x, S(y))
        for x, nm, y in zip((o.LengthScale, o.TimeScale, o.Magnitude), ("length", "time", "magnitude"), (d["L"], d["G"], d["M"])): same("%s: %s scale used in the evaluation" % (what, nm), S(E_(x)), S(y))
    def vec(v, d, learn, what):
        for j, (nm, y) in enumerate((("ln L", d["L"]), ("ln Gamma", d["G"]), ("ln sigma", d["M"]))): same("%s: entry %d is %s" % (what, j, nm), v[j], S(app("log", y)))
        if learn:
            for j in (0, 1): same("%s: entry %d is %s" % (what, 3 + j, "pq"[j]), v[3 + j], S(d["pq"][j]))
    def alone(kind, learn):
        o, d = build(chk, kind, learn); scales(o, d, "model alone")
        vec(shims.parameters_to_vector([p for p in o.parameters()]), d, learn, "parameter vector")
    for kind in KINDS: chk.case("model alone, %s" % kind, lambda kind=kind: alone(kind, False))
    chk.case("model alone, learnable spectrum", lambda: alone("CONST", True))
    def inside(kind, learn):
        c, d = problem(chk, kind, learn); scales(c.OPS, d, "inside a calibration problem"); vec(c.parameters, d, learn, "parameter vector")
    for kind in KINDS: chk.case("calibration problem, %s" % kind, lambda kind=kind: inside(kind, False))
    chk.case("calibration problem, network, learnable spectrum", lambda: inside("TAUNET", True))
    chk.case("calibration problem, Mann, learnable spectrum", lambda: inside("MANN", True))
    def count(c): return c.parameters.shape_[0]
    def roundtrip(kind, learn, lib):
        c, d = problem(chk, kind, learn); n = count(c)
        v = arr("v", S(n), lib=lib); c.parameters = v
        r = c.parameters
        if shape_is("vector read back", r, (S(n),)):
            (i,) = index(S(n)); same("vector read back equals the vector written", S(r.elem((i,))), S(uf("v", i)))
        d2 = dict(d, L=app("exp", uf("v", ZERO)), G=app("exp", uf("v", ONE)), M=app("exp", uf("v", const(2)))); scales(c.OPS, d2, "after writing")
        if learn:
            for j, p in enumerate((c.OPS.p_exponent, c.OPS.q_exponent)): same("after writing: %s" % "pq"[j], S(E_(p)), S(uf("v", const(3 + j))))
    for kind, learn in (("CONST", False), ("CONST", True), ("TAUNET", False), ("TAUNET", True)):
        for lib in ("np", "t"): chk.case("write and read, %s%s, %s vector" % (kind, " learnable" if learn else "", "numpy" if lib == "np" else "torch"), lambda kind=kind, learn=learn, lib=lib: roundtrip(kind, learn, lib))
    def wrong(kind, learn):
        c, d = problem(chk, kind, learn); n = count(c); m = nat("m", 0); ctx.assume(ne(m.v, n))
        before = c.parameters
        try: c.parameters = arr("v", m); ok = False
        except (ValueError, RuntimeError, AssertionError, IndexError): ok = True
        concrete("a vector of the wrong length is rejected", ok)
        after = c.parameters
        if shape_is("vector after rejection", after, (S(n),)):
            (i,) = index(S(n)); same("rejection leaves the model unchanged", S(after.elem((i,))), S(before.elem((i,))))
    for kind, learn in (("CONST", False), ("CONST", True), ("TAUNET", True)): chk.case("wrong length, %s%s" % (kind, " learnable" if learn else ""), lambda kind=kind, learn=learn: wrong(kind, learn))
if __name__ == "__main__": main("C08", contract)
