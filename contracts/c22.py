from calspec import *
import fluctspec as F_
from fluctspec import FFG, GRF, KER, levels
from pyvc.ctx import Unsupported
from pyvc import loader
import traceback
NNM = "drdmannturb.nn_modules"
class Other(str):
    """any string outside a list of known names (and not None)"""
    def __new__(cls, known): o = str.__new__(cls, "any other name"); o._known = known; return o
    def __eq__(self, o):
        if self is o: return True
        if isinstance(o, str) and str(o) in self._known: return False
        raise Unsupported("arbitrary name compared with %r" % (o,))
    def __ne__(self, o): return not self == o
    __hash__ = str.__hash__
    def _no(self, *a, **k): raise Unsupported("operation on an arbitrary name")
    lower = upper = strip = startswith = endswith = casefold = title = capitalize = __contains__ = __getitem__ = __len__ = __add__ = encode = _no
def rejects(name, f):
    """f raises an error of its own (raise / assert in the repository or a library rejecting its argument) on every path"""
    try: f()
    except Exception as e:
        if isinstance(e, Unsupported) or type(e) not in (Exception, RuntimeError, KeyError, ValueError, AssertionError, TypeError, NotImplementedError): raise
        if not any(fr.filename.startswith(loader.REPO + "/") for fr in traceback.extract_tb(e.__traceback__)): raise     # an error of the harness, not of the code
        concrete("rejected: " + name, True); return
    holds("rejected: " + name, FALSE)
def contract(chk):
    F = chk.load(FFG); R = chk.load(GRF); K = chk.load(KER); C = chk.load(CAL); P = chk.load(PAR); En = chk.load(ENU); N = chk.load(NNM); O = chk.load(OPS); NC = chk.load("drdmannturb.fluctuation_generation.nn_covariance")
    chk.fn("fluctuation_field_generator.FluctuationFieldGenerator.__init__", "covariance_kernels.VonKarmanCovariance.__init__", "covariance_kernels.MannCovariance.__init__", "nn_covariance.NNCovariance.__init__", "gaussian_random_fields.GaussianRandomField.__init__", "gaussian_random_fields.GaussianRandomField.setSamplingMethod", "calibration.CalibrationProblem.__init__",
           "calibration.CalibrationProblem.log_dimensional_scales", "one_point_spectra.OnePointSpectra.__init__", "nn_modules.TauNet.__init__", "parameters.DomainParameters.__post_init__")
    chk.trust("torch nn.Linear, ModuleList, Module; numpy array construction per documentation")
    def grid(): return [pos("D" + a) for a in "xyz"], levels()
    def make(model, L, T, E0, **kw):
        D, (l, NN) = grid(); Da, la = SArr.from_list(PList(D), lib="np"), SArr.from_list(PList(l), lib="np")
        return F.FluctuationFieldGenerator(pos("ustar"), pos("zref"), Da, la, model, L, T, E0, **kw), Da, la
    # ---- generators
    chk.case("unknown model name", lambda: rejects("any model name but DRD, VK, Mann", lambda: make(Other(("DRD", "VK", "Mann")), pos("L"), pos("T"), pos("E0"))))
    chk.case("no model name", lambda: rejects("no model name", lambda: make(None, pos("L"), pos("T"), pos("E0"))))
    chk.case("DRD without parameter file", lambda: rejects("DRD without a parameter file", lambda: make("DRD", None, None, None)))
    chk.case("DRD without parameter file, scales given", lambda: rejects("DRD without a parameter file", lambda: make("DRD", pos("L"), pos("T"), pos("E0"))))
    for model in ("VK", "Mann"):
        for m in range(1, 8):
            miss = [nm for b, nm in enumerate(("length", "time", "energy")) if m >> b & 1]
            chk.case("%s without %s scale" % (model, ", ".join(miss)), lambda model=model, m=m, miss=miss: rejects("%s without %s scale" % (model, ", ".join(miss)), lambda: make(model, *[None if m >> b & 1 else pos(nm) for b, nm in enumerate(("L", "T", "E0"))])))
        def ok(model=model):
            b = nat("blend", 0); g, Da, la = make(model, pos("L"), pos("T"), pos("E0"), blend_num=b, seed=S(var("seed", "I")))
            for a in range(3): same("grid dimension %d stored" % a, S(g.grid_dimensions.elem((const(a),))), S(Da.elem((const(a),)))); same("grid level %d stored" % a, S(g.grid_levels.elem((const(a),))), S(la.elem((const(a),))))
            same("blending width stored", S(E_(g.blend_num)), b); same("seed stored", S(E_(g.seed)), S(var("seed", "I")))
            c = g.RF.Covariance; concrete("kernel of the named model", type(c).__name__ == {"VK": "VonKarmanCovariance", "Mann": "MannCovariance"}[model])
            same("kernel length scale", S(E_(c.L)), S(var("L"))); same("kernel energy", S(E_(c.E0)), S(mul(var("E0"), sq(var("ustar")), powc(var("zref"), Fr(-2, 3)))))
            if model == "Mann": same("kernel time scale", S(E_(c.Gamma)), S(var("T")))
        chk.case("%s accepted" % model, ok)
    # ---- kernels
    for nm, mk_ in (("VonKarmanCovariance", lambda n: K.VonKarmanCovariance(n, pos("L"), pos("E0"))), ("MannCovariance", lambda n: K.MannCovariance(n, pos("L"), pos("E0"), pos("T"))), ("NNCovariance", lambda n: NC.NNCovariance(n, pos("L"), pos("E0"), pos("T"), None, pos("href")))):
        def dim(mk_=mk_):
            n = S(var("n", "I")); ctx.assume(ne(n.v, const(3))); rejects("every dimension but three", lambda: mk_(n))
        chk.case("%s, other dimensions" % nm, dim)
        def dim3(mk_=mk_, nm=nm):
            k = mk_(3); concrete("dimension stored", k.ndim == 3); same("length scale stored", S(E_(k.L)), S(var("L"))); same("energy stored", S(E_(k.E0)), S(var("E0")))
            if nm == "MannCovariance": same("time scale stored", S(E_(k.Gamma)), S(var("T")))
        chk.case("%s, three dimensions" % nm, dim3)
    # ---- random fields
    METHODS = ("fft", "dst", "dct", "fftw", "vf_fftw")
    class Cov:
        ndim = 3
        def precompute_Spectrum(self, fr): return SArr((const(3), const(3)) + tuple(f.shape_[0] for f in fr), lambda i: uf("G", *i), "f")
    class Cov1(Cov):
        def precompute_Spectrum(self, fr): return SArr(tuple(f.shape_[0] for f in fr), lambda i: uf("G", *i), "f")
    def rf(method, cov=Cov, cls="VectorGaussianRandomField"):
        D, (l, NN) = grid()
        return getattr(R, cls)(Covariance=cov(), grid_level=SArr.from_list(PList(l), lib="np"), grid_shape=PList([nat("n" + a) for a in "xyz"]), grid_dimensions=SArr.from_list(PList(D), lib="np"), ndim=3, sampling_method=method)
    chk.case("unknown sampling method", lambda: rejects("any sampling method outside the list", lambda: rf(Other(METHODS))))
    def reset():
        o = rf("vf_fftw"); rejects("any sampling method outside the list, set later", lambda: o.setSamplingMethod(Other(METHODS)))
    chk.case("unknown sampling method set later", reset)
    for m in ("fftw", "vf_fftw"):
        def acc(m=m):
            o = rf(m, *((Cov, "VectorGaussianRandomField") if m == "vf_fftw" else (Cov1, "GaussianRandomField"))); concrete("method stored", o.method == m); concrete("sampler of the named method", type(o.Correlate).__name__ == "Sampling_" + m.upper())
        chk.case("sampling method %s accepted" % m, acc)
    def badgrid(which):
        def body():
            n = nat("m", 0); ctx.assume(ne(n.v, const(3))); D, (l, NN) = grid()
            Da = arr("D", n) if which == "dimensions" else SArr.from_list(PList(D), lib="np"); la = arr("lv", n, kind="i") if which == "levels" else SArr.from_list(PList(l), lib="np")
            rejects("grid %s that are not three" % which, lambda: R.VectorGaussianRandomField(Covariance=Cov(), grid_level=la, grid_shape=PList([nat("n" + a) for a in "xyz"]), grid_dimensions=Da, ndim=3, sampling_method="vf_fftw"))
        return body
    chk.case("random field, wrong number of dimensions", badgrid("dimensions")); chk.case("random field, wrong number of levels", badgrid("levels"))
    # ---- calibration
    KINDS = ("TAUNET", "CONST", "MANN", "TWOTHIRD", "MANN_APPROX")
    def cal(comps, kind, L, G, M):
        prob = P.ProblemParameters(num_components=comps, eddy_lifetime=getattr(En.EddyLifetimeType, kind))
        return C.CalibrationProblem(nn_params=P.NNParameters(nlayers=2, hidden_layer_size=4), prob_params=prob, loss_params=P.LossParameters(), phys_params=P.PhysicalParameters(L=L, Gamma=G, sigma=M, Uref=pos("Uref"), zref=pos("zref"), ustar=pos("ustar")), integration_params=P.IntegrationParameters(), logging_directory=None, output_directory="/out")
    for kind in KINDS:
        def comps(kind=kind):
            n = S(var("n", "I")); ctx.assume(and_(*[ne(n.v, const(k)) for k in (3, 4, 6)])); rejects("every component count but 3, 4, 6", lambda: cal(n, kind, pos("L"), pos("G"), pos("M")))
        chk.case("component count, %s" % kind, comps)
        for i, nm in enumerate(("length", "time", "amplitude")):
            def scale(kind=kind, i=i, nm=nm):
                x = real("bad"); ctx.assume(le(x.v, ZERO)); v = [pos("L"), pos("G"), pos("M")]; v[i] = x
                rejects("a non-positive %s scale" % nm, lambda: cal(4, kind, *v))
            chk.case("non-positive %s scale, %s" % (nm, kind), scale)
        for k in (3, 4, 6):
            def accept(kind=kind, k=k):
                c = cal(k, kind, pos("L"), pos("G"), pos("M")); concrete("component count stored", c.prob_params.num_components == k)
                for j, nm in enumerate(("L", "G", "M")): same("scale %d stored" % j, c.parameters[j], S(app("log", var(nm))))
                concrete("lifetime type stored", c.OPS.type_EddyLifetime == getattr(En.EddyLifetimeType, kind))
            chk.case("%d components, %s accepted" % (k, kind), accept)
    # ---- network
    def neg_int(name): n = S(var(name, "I")); ctx.assume(le(n.v, ZERO)); return n
    chk.case("network depth below one", lambda: rejects("a depth below one", lambda: N.TauNet(n_layers=neg_int("n"))))
    chk.case("network depth not an integer", lambda: rejects("a depth that is no integer", lambda: N.TauNet(n_layers=real("x"))))
    chk.case("network width below one", lambda: rejects("a width below one", lambda: N.TauNet(n_layers=2, hidden_layer_sizes=neg_int("w"))))
    for d in (1, 2, 3, 4):
        for k in range(0, 6):
            if k != d: chk.case("%d widths for %d layers" % (k, d), lambda d=d, k=k: rejects("%d widths for %d layers" % (k, d), lambda: N.TauNet(n_layers=d, hidden_layer_sizes=PList([nat("w%d" % i) for i in range(k)]))))
            if k != d: chk.case("%d activations for %d layers" % (k, d), lambda d=d, k=k: rejects("%d activations for %d layers" % (k, d), lambda: N.TauNet(n_layers=d, hidden_layer_sizes=nat("w"), activations=PList([N.nn.ReLU() for i in range(k)]))))
        for j in range(d):
            chk.case("width %d of %d below one" % (j, d), lambda d=d, j=j: rejects("a width below one", lambda: N.TauNet(n_layers=d, hidden_layer_sizes=PList([neg_int("bad") if i == j else nat("w%d" % i) for i in range(d)]))))
            chk.case("activation %d of %d is no module" % (j, d), lambda d=d, j=j: rejects("an activation that is no module", lambda: N.TauNet(n_layers=d, hidden_layer_sizes=nat("w"), activations=PList([object() if i == j else N.nn.ReLU() for i in range(d)]))))
        for lst in (False, True):
            for ac in ("none", "module", "list"):
                def ok(d=d, lst=lst, ac=ac):
                    w = PList([nat("w%d" % i) for i in range(d)]) if lst else nat("w"); a = {"none": None, "module": N.nn.ReLU(), "list": PList([N.nn.ReLU() for _ in range(d)])}[ac]
                    t = N.TauNet(n_layers=d, hidden_layer_sizes=w, activations=a); concrete("depth stored", t.n_layers == d); concrete("one width and one activation per layer", len(t.hidden_layer_sizes) == d and len(t.activations) == d); concrete("one matrix per layer and one more", len(t.linears) == d + 1)
                    ws = [w[i] for i in range(d)] if lst else [w] * d
                    for i in range(d): same("width %d stored" % i, S(E_(t.hidden_layer_sizes[i])), ws[i])
                    if ac == "module": concrete("activation stored", all(x is a for x in t.activations))
                    if ac == "list": concrete("activations stored", all(x is y for x, y in zip(t.activations, a)))
                    dims = [S(const(3))] + ws + [S(const(3))]
                    for i, li in enumerate(t.linears): shape_is("matrix %d" % i, li.weight, (dims[i + 1], dims[i]))
                chk.case("network of depth %d, width %s, activation %s accepted" % (d, "list" if lst else "single", ac), ok)
    chk.case("activation that is no module", lambda: rejects("an activation that is no module", lambda: N.TauNet(n_layers=2, hidden_layer_sizes=nat("w"), activations=object())))
    chk.bounded.append({"what": "network depths 1 to 4 (widths arbitrary); list lengths 0 to 5 against each depth"})
    # ---- domain parameters
    for cont in ("tuple", "list", "array"):
        def build_(xs): return tuple(xs) if cont == "tuple" else PList(xs)
        for bad in ("dimensions", "levels"):
            if cont == "array":
                def b(bad=bad):
                    n = nat("m", 0); ctx.assume(ne(n.v, const(3))); Da, la = arr("D", const(3)), arr("lv", const(3), kind="i")
                    if bad == "dimensions": Da = arr("D", n)
                    else: la = arr("lv", n, kind="i")
                    rejects("%s array that is not of length 3" % bad, lambda: P.DomainParameters(Da, la))
                chk.case("domain %s, array of another length" % bad, b)
            else:
                for k in (0, 1, 2, 4, 5):
                    def b(bad=bad, k=k, cont=cont):
                        mk_ = tuple if cont == "tuple" else PList
                        rejects("%s %s of length %d" % (bad, cont, k), lambda: P.DomainParameters(mk_([pos("D%d" % i) for i in range(k if bad == "dimensions" else 3)]), mk_([nat("l%d" % i) for i in range(k if bad == "levels" else 3)])))
                    chk.case("domain %s, %s of length %d" % (bad, cont, k), b)
        def okd(cont=cont):
            mk_ = {"tuple": tuple, "list": PList, "array": lambda x: SArr.from_list(PList(x), lib="np")}[cont]
            D, l = [pos("D%d" % i) for i in range(3)], [nat("l%d" % i) for i in range(3)]; p = P.DomainParameters(mk_(D), mk_(l))
            if shape_is("dimensions", p.grid_dimensions, (3,)) and shape_is("levels", p.grid_levels, (3,)):
                for i in range(3): same("dimension %d stored" % i, S(p.grid_dimensions.elem((const(i),))), D[i]); same("level %d stored" % i, S(p.grid_levels.elem((const(i),))), l[i])
        chk.case("domain parameters, %s accepted" % cont, okd)
if __name__ == "__main__": main("C22", contract)
