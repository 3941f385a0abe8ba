from spec import *
KER = "drdmannturb.fluctuation_generation.covariance_kernels"
NNK = "drdmannturb.fluctuation_generation.nn_covariance"
class FakeOPS:
    """stands for any OnePointSpectra: its network is an arbitrary function of the wavevector"""
    def __init__(self): self.tauNet = AnyNet()
class AnyNet:
    def __call__(self, kv):
        g = kv.getter()
        return SArr(kv.shape_[:-1], lambda idx: uf("tauNet", *[E_(g(idx + (const(c),))) for c in range(3)]), "f", "t")
    def __getattr__(self, n):
        if n in ("to", "double", "float", "eval", "cpu"): return lambda *a, **k: self
        if n == "parameters": return lambda: iter([SArr((ONE,), lambda i: uf("w0"), "f", "t")])
        raise AttributeError(n)
def contract(chk):
    K = chk.load(KER); N = chk.load(NNK)
    numev.declare("tauNet", "nonneg")
    chk.fn("covariance_kernels.VonKarmanCovariance.precompute_Spectrum", "covariance_kernels.MannCovariance.precompute_Spectrum", "nn_covariance.NNCovariance.precompute_Spectrum")
    chk.trust("numpy/torch array primitives per documentation", "the eddy lifetime network enters as an arbitrary non-negative function of the (scaled) wavevector")
    def one(mk):
        c = mk()
        F, n, ix, k = freqs()
        G = c.precompute_Spectrum(F)
        if not shape_is("G", G, (3, 3) + tuple(n)): return
        for j in range(3):
            col = [G.elem((const(i), const(j)) + tuple(ix)) for i in range(3)]
            d = ZERO
            for i in range(3): d = vadd(d, vmul(k[i], col[i]))
            same("k . G[:, %d] = 0" % j, S(d), S(Cx(ZERO, ZERO)))
    def P(): return pos("L"), pos("E0")
    def gam():
        g = real("Gamma"); ctx.assume(ge(g.v, ZERO)); return g
    chk.case("von Karman", lambda: one(lambda: K.VonKarmanCovariance(3, *P())))
    chk.case("Mann", lambda: one(lambda: K.MannCovariance(3, *P(), gam())))
    chk.case("DRD", lambda: one(lambda: N.NNCovariance(3, *P(), gam(), FakeOPS(), pos("h_ref"))))
if __name__ == "__main__": main("C02", contract)
