from fluctspec import *
from pyvc import loops, ctx, shims
SM = "drdmannturb.fluctuation_generation.sampling_methods"
class Kernel:
    """any kernel: a 3x3 complex matrix at every index of the frequency grid it is given"""
    ndim = 3
    def precompute_Spectrum(self, freqs):
        self.freqs = freqs
        sh = (const(3), const(3)) + tuple(f.shape_[0] for f in freqs)
        return SArr(sh, lambda i: Cx(uf("Gr", *i), uf("Gi", *i)), "c")
def contract(chk):
    chk.fn("gaussian_random_fields.GaussianRandomField.__init__", "gaussian_random_fields.GaussianRandomField.setSamplingMethod", "gaussian_random_fields.GaussianRandomField.sample", "gaussian_random_fields.GaussianRandomField.sample_noise", "gaussian_random_fields.VectorGaussianRandomField.__init__",
           "sampling_methods.Sampling_VF_FFTW.__init__", "sampling_methods.Sampling_VF_FFTW.__call__", "sampling_methods.Sampling_method_freq.__init__", "sampling_methods.Sampling_FFTW.__init__", "sampling_methods.Sampling_FFTW.__call__")
    chk.trust("pyfftw plans compute the real forward / normalised inverse transform of their buffers and may destroy their input; numpy einsum, stack, prod, fftfreq per documentation; RandomState.normal draws loc + scale * standard normal deviates")
    def grid():
        D = [pos("D" + a) for a in "xyz"]; l, N = levels(); n = [nat("n" + a) for a in "xyz"]
        h = [div(D[i].v, N[i]) for i in range(3)]
        return D, l, N, n, h
    def freq(n, h, j):
        half = vfdiv(sub(n, ONE), const(2))
        return mul(const(2), PI, div(ite(le(j, half), j, sub(j, n)), mul(n, h)))      # 2 pi times the FFT frequency of n points with spacing h
    def field(n, h, noise, scalar=False):
        """irfftn over the half spectrum of sqrt(n1 n2 n3) G rfftn(noise), over sqrt(L1 L2 L3)"""
        nv = [x.v for x in n]; half = (nv[0], nv[1], add(vfdiv(nv[2], const(2)), ONE))
        hats = [shims.opaque_transform("rfftn", SArr(tuple(nv), lambda i, c=c: noise(*i, c) if c is not None else noise(*i), "f"), (0, 1, 2), outshape=half) for c in ([None] if scalar else [const(c) for c in range(3)])]
        rt = sqrt(mul(*nv)); Lr = sqrt(mul(*[mul(a, b) for a, b in zip(nv, h)]))
        def comp(c):
            def body(i):
                r = Cx(ZERO, ZERO)
                for l, ht in enumerate(hats):
                    g = Cx(uf("Sr", *i), uf("Si", *i)) if scalar else Cx(uf("Gr", const(c), const(l), *i), uf("Gi", const(c), const(l), *i))
                    r = vadd(r, vmul(g, ht.elem(i)))
                return vmul(r, rt)
            a = shims.opaque_transform("irfftn", SArr(half, body, "c"), (0, 1, 2), extra=tuple(nv), outshape=tuple(nv), real_out=True)
            return lambda *i: div(a.elem(tuple(i)), Lr)
        return [comp(c) for c in range(1 if scalar else 3)]
    def make(D, l, n, cov, method="vf_fftw", cls="VectorGaussianRandomField"):
        R = chk.load(GRF)
        return getattr(R, cls)(Covariance=cov, grid_level=SArr.from_list(PList(l), lib="np"), grid_shape=PList(n), grid_dimensions=SArr.from_list(PList(D), lib="np"), ndim=3, sampling_method=method)
    def havoc(o):
        """forget the mutable arrays of the sampler"""
        for nm, v in list(o.__dict__.items()):
            if isinstance(v, SArr) and nm in changed:
                f = (lambda idx, nm=nm: Cx(uf("st_r_" + nm, *idx), uf("st_i_" + nm, *idx))) if v.kind == "c" else (lambda idx, nm=nm: uf("st_" + nm, *idx))
                v.assign_all(SArr(v.shape_, f, v.kind))
    changed = set()
    def state(o): return {nm: (v.buf, v.buf.content, v.shape_) for nm, v in o.__dict__.items() if isinstance(v, SArr)}
    def sampled(name, method, cls, dims):
        def body():
            D, l, N, n, h = grid(); cov = Kernel()
            if dims == 0:
                cov.precompute_Spectrum = lambda fr: setattr(cov, "freqs", fr) or SArr(tuple(f.shape_[0] for f in fr), lambda i: Cx(uf("Sr", *i), uf("Si", *i)), "c")
            rf = make(D, l, n, cov, method, cls); extra = (const(3),) if dims else ()
            for a in range(3):
                if shape_is("wavenumbers %d" % a, cov.freqs[a], (n[a].v,)):
                    j, = index(n[a]); same("wavenumbers %d" % a, S(cov.freqs[a].elem((j,))), S(freq(n[a].v, h[a], j)))
            def once(k, nm, z=None):
                if z is None: z = arr(nm, *n, *([3] if dims else []))
                out = rf.sample(z); used.append(z)
                spec = field(n, h, lambda *i: uf(nm, *i), not dims)
                if not shape_is("%s: shape" % k, out, tuple(x.v for x in n) + extra): return
                i = index(*n)
                for c in range(3 if dims else 1):
                    same("%s, component %d" % (k, c), S(out.elem(tuple(i) + ((const(c),) if dims else ()))), S(spec[c](*i)))
                    same("%s: noise not modified, component %d" % (k, c), S(z.elem(tuple(i) + ((const(c),) if dims else ()))), S(uf(nm, *i, *([const(c)] if dims else []))))
                return out, spec
            used = []
            before = state(rf.Correlate); r1 = once("first sample", "noiseA"); after = state(rf.Correlate)
            changed.clear()
            for nm, (b, cont, sh) in after.items():
                if nm not in before or before[nm][0] is not b or before[nm][1] is not cont: changed.add(nm)
            havoc(rf.Correlate); shapes = {nm: s[2] for nm, s in state(rf.Correlate).items()}
            once("sample after any earlier samples", "noiseB")
            fin = state(rf.Correlate)
            for nm in changed:
                shape_is("state %s keeps its shape" % nm, getattr(rf.Correlate, nm), shapes[nm])
            concrete("no further state appears", all(nm in changed or (before[nm][0] is b and before[nm][1] is cont) for nm, (b, cont, sh) in fin.items()))
            if used:      # the caller's array refilled in place, and a returned field overwritten by its user
                z = used[-1]; z.assign_all(arr("noiseC", *n, *([3] if dims else []))); r3 = once("sample of the same array with new content", "noiseC", z)
                if r3:
                    r3[0].assign_all(arr("scribble", *n, *([3] if dims else []))); once("sample of the same array after its field was overwritten", "noiseC", z)
            if r1:
                i = index(*n)
                for c in range(3 if dims else 1):
                    same("field returned earlier untouched, component %d" % c, S(r1[0].elem(tuple(i) + ((const(c),) if dims else ()))), S(r1[1][c](*i)))
        chk.case(name, body, min_paths=1)
    sampled("vector field", "vf_fftw", "VectorGaussianRandomField", 3)
    sampled("scalar field", "fftw", "GaussianRandomField", 0)
    def noise():
        D, l, N, n, h = grid(); rf = make(D, l, n, Kernel())
        sd = sqrt(mul(*h)); s = [nat("s%d" % k) for k in range(4)]
        a = rf.sample_noise(PList(s)); b = rf.sample_noise(PList(s)); c = rf.sample_noise()
        for nm, x, sh in (("first", a, s), ("second", b, s), ("default shape", c, n)):
            if not shape_is("noise, " + nm, x, [q_.v for q_ in sh]): continue
            i = index(*sh)
            draws = subterms(x.elem(tuple(i)), lambda e: e.op == "app" and str(e.args[0]).startswith("rng_"))
            concrete("noise, %s: one standard normal draw per element" % nm, len(draws) == 1)
            if len(draws) == 1: same("noise, %s: standard deviation sqrt(cell volume)" % nm, S(x.elem(tuple(i))), S(mul(sd, draws[0])))
        if all(isinstance(x, SArr) and len(x.shape_) == 4 for x in (a, b)):
            i = index(*s); da, db = [subterms(x.elem(tuple(i)), lambda e: e.op == "app" and str(e.args[0]).startswith("rng_")) for x in (a, b)]
            concrete("successive noise arrays are fresh draws, one per element", len(da) == len(db) == 1 and da[0].args[0] != db[0].args[0] and da[0].args[1:] == tuple(i) and db[0].args[1:] == tuple(i))
    chk.case("noise", noise)
    def generator(model):
        def body():
            K = chk.load(KER); F = chk.load(FFG); seen = {}
            cls = K.MannCovariance if model == "Mann" else K.VonKarmanCovariance; old = cls.precompute_Spectrum
            kern = Kernel()
            cls.precompute_Spectrum = lambda self, fr: seen.setdefault("cov", self) and kern.precompute_Spectrum(fr)
            try: g, d = gen(chk, model, rf=False)
            finally: cls.precompute_Spectrum = old
            h = [div(d["D"][i], d["N"][i]) for i in range(3)]
            P = [dimE(x) for x in list(g.noise_shape)]
            for a in range(3):
                if shape_is("wavenumbers %d" % a, kern.freqs[a], (P[a],)):
                    j, = index(P[a]); same("wavenumbers %d" % a, S(kern.freqs[a].elem((j,))), S(freq(P[a], h[a], j)))
            z = arr("noise", *[S(x) for x in P[:3]], 3); out = g.RF.sample(z)
            if not shape_is("field", out, tuple(P[:3]) + (const(3),)): return
            spec = field([S(x) for x in P[:3]], h, lambda *i: uf("noise", *i)); i = index(*P[:3])
            for c in range(3): same("field, component %d" % c, S(out.elem(tuple(i) + (const(c),))), S(spec[c](*i)))
            x = g.RF.sample_noise(g.noise_shape); i = index(*P)
            draws = subterms(x.elem(tuple(i)), lambda e: e.op == "app" and str(e.args[0]).startswith("rng_"))
            if len(draws) == 1: same("generated noise: standard deviation", S(x.elem(tuple(i))), S(mul(sqrt(mul(*h)), draws[0])))
            else: concrete("generated noise: one draw per element", False)
        chk.case("inside the generator, %s" % model, body)
    generator("VK"); generator("Mann")
if __name__ == "__main__": main("C13", contract)
