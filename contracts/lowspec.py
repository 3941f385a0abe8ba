"""Low-frequency generator with a symbolic configuration; callees represented by their contracts."""
from spec import *
from pyvc import shims
LF = "drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator"
def pow2(x):
    from pyvc.loader import pow_
    return val(pow_(2, x))
def config():
    return dict(sigma2=pos("sigma2"), L_2d=pos("L2d"), psi=real("psi"), z_i=pos("zi"), L1_factor=pos("f1"), L2_factor=pos("f2"), exp1=nat("e1", 0), exp2=nat("e2", 0))
def bare(cls, **attrs):
    """an object in an arbitrary state with the given attributes (precondition of a method)"""
    g = cls.__new__(cls); g.__dict__.update(attrs); return g
def even(nm):
    k = nat(nm, 1); return mul(const(2), k.v)
def low(chk):
    """constructed generator; _calculate_buffer_sizes and _compute_c by their contracts (C14, C15)"""
    M = chk.load(LF); c = config(); L = c["L_2d"].v
    d = dict(L=L, psi=c["psi"].v, z=c["z_i"].v, s2=c["sigma2"].v, n1=even("h1"), n2=even("h2"), c=pos("c").v)
    d["N1"] = pow2(c["exp1"]); d["N2"] = pow2(c["exp2"])
    d["L1"] = mul(c["L1_factor"].v, L); d["L2"] = mul(c["L2_factor"].v, L)
    d["dx"] = div(d["L1"], d["N1"]); d["dy"] = div(d["L2"], d["N2"])
    d["h"] = min_(d["dx"], d["dy"])
    class G(M.LowFreqGenerator):
        def _calculate_buffer_sizes(self): return S(mul(d["n1"], d["h"])), S(mul(d["n2"], d["h"])), S(d["n1"]), S(d["n2"])
        def _compute_c(self): return S(d["c"], "f")
    G.__name__ = "LowFreqGenerator"
    g = G(c)
    return M, g, d
