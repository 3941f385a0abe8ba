"""Fluctuation field generators with symbolic grids; the random field is replaced by its contract (C13)."""
from spec import *
from pyvc import shims
FFG = "drdmannturb.fluctuation_generation.fluctuation_field_generator"
GRF = "drdmannturb.fluctuation_generation.gaussian_random_fields"
KER = "drdmannturb.fluctuation_generation.covariance_kernels"
class FieldContract:
    """contract of the random field: sample_noise(shape) is fresh noise of that shape; sample(noise) is a real field of the shape
    of the noise, a function of the noise alone, and leaves the noise as it is"""
    def __init__(self): self.drawn = []; self.sampled = []
    def sample_noise(self, grid_shape=None):
        k = len(self.drawn); nm = "noise%d" % k
        sh = shims.shape_of(grid_shape) if grid_shape is not None else None
        a = SArr(sh, lambda idx: uf(nm, *idx), "f"); self.drawn.append((nm, sh)); return a
    def sample(self, noise=None):
        k = len(self.sampled); g = noise.getter(); sh = noise.shape_
        content = noise.copy_as("np") ; nm = "field%d" % k
        self.sampled.append((nm, sh, content))
        return SArr(sh, lambda idx: uf(nm, *idx), "f")
    def reseed(self, seed=None): pass
def levels():
    l = [nat("l" + a) for a in "xyz"]
    N = [add(app("ipow2", x.v) if False else powi(x), ONE) for x in l]
    return l, N
def powi(l):
    from pyvc.loader import pow_
    return val(pow_(2, l))
def gen(chk, model="VK", blend=None, config_2d=None, rf=True, seed=None):
    F = chk.load(FFG)
    D = [pos("D" + a) for a in "xyz"]; l, N = levels()
    L, T, E0 = pos("L"), pos("T"), pos("E0")
    b = blend if blend is not None else nat("blend", 0)
    g = F.FluctuationFieldGenerator(pos("ustar"), pos("zref0"), SArr.from_list(PList(D), lib="np"), SArr.from_list(PList(l), lib="np"), model, L, T, E0, blend_num=b, config_2d_model=config_2d, seed=seed)
    if rf: g.RF = FieldContract()
    d = dict(D=[x.v for x in D], l=[x.v for x in l], N=N, L=L.v, T=T.v, blend=val(b))
    return g, d
