from calspec import *
import fluctspec as F_
from fluctspec import FFG, levels
from pyvc.ctx import Unsupported
NC = "drdmannturb.fluctuation_generation.nn_covariance"
def contract(chk):
    F = chk.load(FFG); K = chk.load(NC)
    chk.fn("calibration.CalibrationProblem.save_model", "calibration.CalibrationProblem.__init__", "calibration.CalibrationProblem.parameters (getter and setter)", "fluctuation_field_generator.FluctuationFieldGenerator.__init__ (DRD branch)", "one_point_spectra.OnePointSpectra.exp_scales", "nn_covariance.NNCovariance.__init__", "nn_covariance.NNCovariance.precompute_Spectrum", "nn_modules.TauNet.forward")
    chk.trust("pickle.dump followed by pickle.load gives an equal, independent object", "torch: Module parameter registration order, parameters_to_vector and vector_to_parameters per documentation",
              "numpy: zeros, tile, meshgrid(indexing='ij'), where, sum, nan_to_num, arctan2, moveaxis per documentation")
    # ---- the kernel, for any network
    def kernel(which):
        L, E0, Gam, h = pos("L"), pos("E0"), pos("Gamma"), pos("href")
        numev.declare("tauNet", "nonneg")
        class Net(AnyNet):
            def parameters(s): return iter([SArr((const(3), const(3)), lambda idx: uf("weight", *idx), "f", "t")])
        class Ops: tauNet = Net()
        c = K.NNCovariance(ndim=3, length_scale=L, E0=E0, Gamma=Gam, ops=Ops(), h_ref=h)
        Fq, n, ix, k = freqs(); kk = add(*[sq(x) for x in k])
        if which == "generic": ctx.assume(ne(k[0], ZERO))
        if which == "plane": ctx.assume(eq(k[0], ZERO))
        if which == "zero":
            for x in k: ctx.assume(eq(x, ZERO))
        G = c.precompute_Spectrum(Fq)
        if not shape_is("G", G, (3, 3) + tuple(n)): return
        M = [[G.elem((const(i), const(j)) + tuple(ix)) for j in range(3)] for i in range(3)]
        if which == "zero":
            for i in range(3):
                for j in range(3): same("G(0)[%d,%d] = 0" % (i, j), S(M[i][j]), S(Cx(ZERO, ZERO)))
            return
        if which == "generic":
            beta = mul(Gam.v, uf("tauNet", *[mul(x, L.v) for x in k]))
            ctx.assume(ge(uf("tauNet", *[mul(x, L.v) for x in k]), ZERO))
            z1, z2, z3, k0 = zetas(k, beta); P = distort(iso(e_vk(E0.v, L.v, add(*[sq(x) for x in k0])), k0), z1, z2, z3)
        else: P = iso(e_vk(E0.v, L.v, kk), k)
        for i in range(3):
            for j in range(3):
                same("GG*[%d,%d] is the %s tensor" % (i, j, "sheared" if which == "generic" else "isotropic"), S(gram(M, i, j)), S(Cx(P[i][j], ZERO)))
                finite("G[%d,%d]" % (i, j), M[i][j])
    chk.case("kernel, k1 != 0, any network", lambda: kernel("generic")); chk.case("kernel, k1 == 0, any network", lambda: kernel("plane")); chk.case("kernel, k = 0, any network", lambda: kernel("zero"))
    # ---- save, then build the generator from the file
    def settings(what, a, b):
        import dataclasses
        for f in dataclasses.fields(a):
            x, y = getattr(a, f.name), getattr(b, f.name)
            if isinstance(x, SArr):
                if shape_is("%s.%s" % (what, f.name), y, tuple(S(z) for z in x.shape_)):
                    i = index(*[S(z) for z in x.shape_]); same("%s.%s" % (what, f.name), S(y.elem(i)), S(x.elem(i)))
            elif isinstance(x, (S, int, float)) and not isinstance(x, bool): same("%s.%s" % (what, f.name), S(E_(y)), S(E_(x)))
            else: concrete("%s.%s" % (what, f.name), x == y if not isinstance(x, list) else len(x) == len(y))
    def generator(path):
        D = [pos("D" + a) for a in "xyz"]; l, NN = levels(); us, zr = pos("us"), pos("zr")
        return F.FluctuationFieldGenerator(us, zr, SArr.from_list(PList(D), lib="np"), SArr.from_list(PList(l), lib="np"), "DRD", path_to_parameters=path, blend_num=nat("blend", 0)), us.v, zr.v
    NAME = "/EddyLifetimeType.TAUNET.pkl"
    def roundtrip(learn, comps, layers, lib, how="default", twice=False, width=None, **loss):
        c, d = problem(chk, "TAUNET", learn, comps, layers=layers, nepochs=nat("nep"), width=width, **loss)
        n = c.parameters.shape_[0]
        if lib is not None: c.parameters = arr("v", S(n), lib=lib); get = lambda i: uf("v", i)
        else: g0 = c.parameters.getter(); get = lambda i: b2n(g0((i,)))
        if twice: c.save_model("/sub"); c.parameters = arr("v2", S(n), lib="t"); get = lambda i: uf("v2", i); c.save_model("/sub"); path = "/sub" + NAME
        elif how == "default": c.save_model(); path = "/out" + NAME
        else: c.save_model("/sub"); path = "/sub" + NAME
        f = shims.W.files.get(path)
        if f is None: concrete("the file is written", False); return
        # whatever happens to the calibrated problem afterwards does not reach the file
        if lib == "np": c.parameters = arr("later", S(n), lib="t")
        g, us, zr = generator(path); k = g.RF.Covariance
        concrete("kernel of the DRD model", type(k).__name__ == "NNCovariance")
        v = f[4]
        if shape_is("parameter vector in the file", v, (S(n),)):
            (i,) = index(S(n)); same("parameter vector in the file", S(v.elem((i,))), S(get(i)))
        for nm, a, b in (("network settings", f[0], c.nn_params), ("problem settings", f[1], c.prob_params), ("loss settings", f[2], c.loss_params), ("physical settings", f[3], c.phys_params)): settings(nm, b, a)
        r = shims.parameters_to_vector([p for p in k.OPS.parameters()])
        if shape_is("parameter vector of the generator's model", r, (S(n),)):
            (i,) = index(S(n)); same("parameter vector of the generator's model", S(r.elem((i,))), S(get(i)))
        same("length scale is the calibrated one times the reference height", S(E_(k.L)), S(mul(app("exp", get(ZERO)), zr))); same("time scale is the calibrated one", S(E_(k.Gamma)), S(app("exp", get(ONE))))
        same("energy scale", S(E_(k.E0)), S(mul(q(4), PI, powc(app("exp", get(ZERO)), Fr(-5, 3)), app("exp", get(const(2))), sq(us), powc(zr, Fr(-2, 3)))))
        # the generator's network is the saved network
        a, b = c.OPS.tauNet, k.OPS.tauNet
        if lib != "np":
            m = nat("m"); kv = SArr((m.v, const(3)), lambda ix: uf("kv", *ix), "f", "t"); (j,) = index(m)
            same("the generator's network is the saved network", S(b(kv).elem((j,))), S(a(kv).elem((j,))))
        # the generator's window is cut with its own scales
        from pyvc.check import same as s_
        concrete("network depth", len(b.linears) == layers + 1)
    for learn in (False, True):
        for layers in (1, 2):
            for lib in (None, "np", "t"): chk.case("save and regenerate, %d layers, %s%s" % (layers, {None: "initial parameters", "np": "written numpy vector, later changes", "t": "written tensor"}[lib], ", learnable spectrum" if learn else ""), lambda learn=learn, layers=layers, lib=lib: roundtrip(learn, 4, layers, lib))
    for comps in (3, 6): chk.case("save and regenerate, %d components" % comps, lambda comps=comps: roundtrip(False, comps, 2, "t", how="dir"))
    chk.case("save twice and regenerate", lambda: roundtrip(True, 4, 2, None, twice=True))
    chk.case("save and regenerate, loss settings", lambda: roundtrip(False, 4, 2, "t", alpha_pen1=real("a1"), alpha_pen2=real("a2"), beta_reg=real("b"), gamma_coherence=real("gc")))
    chk.bounded.append({"what": "networks of depth 1 and 2 (any widths) in the save/load round trip; the kernel obligations hold for any network"})
if __name__ == "__main__": main("C03", contract)
