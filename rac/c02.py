from common import *
import numpy as np, torch
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance, VonKarmanCovariance
from drdmannturb.fluctuation_generation.nn_covariance import NNCovariance
from c01 import frq, params
import common
del common.TESTS[:]
def div_free(G, F):
    k = np.array(np.meshgrid(*F, indexing="ij"))
    assert G.shape == (3, 3) + tuple(len(f) for f in F), "kernel shape %s" % (G.shape,)
    assert np.isfinite(G).all(), "non-finite kernel entry"
    d = np.abs(np.einsum("i...,ij...->j...", k, G)); s = (np.abs(k).max(axis=0) * np.abs(G).max(axis=(0, 1)))[None] + 0 * d
    bad = d > 1e-6 * s.max(axis=0) + 1e-250
    if bad.any():
        i = tuple(int(x[0]) for x in np.where(bad)); raise AssertionError("k.G = %g (terms of size %g) at %s, k = %s" % (d[i], s[i], i, k[(slice(None),) + i[1:]].tolist()))
@test(n=40)
def vk(rng):
    L, E0, _ = params(rng); F = frq(rng); note(L=L, E0=E0, F=[f.tolist() for f in F])
    div_free(VonKarmanCovariance(3, L, E0).precompute_Spectrum(F), F)
@test(n=60)
def mann(rng):
    L, E0, Ga = params(rng); F = frq(rng); note(L=L, E0=E0, Gamma=Ga, F=[f.tolist() for f in F])
    div_free(MannCovariance(3, L, E0, Ga).precompute_Spectrum(F), F)
class O:
    pass
@test(n=60)
def drd(rng):
    L, E0, Ga = params(rng); F = frq(rng); h = rng.uniform(.3, 3)
    p, s = rng.uniform(-1, 1), rng.uniform(0, 2)
    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__(); self.w = torch.nn.Parameter(torch.ones(1, dtype=torch.float64))
        def forward(self, k): return s * (1e-9 + (k ** 2).sum(-1)) ** (p / 2)
    o = O(); o.tauNet = Net(); note(L=L, E0=E0, Gamma=Ga, h=h, p=p, s=s, F=[f.tolist() for f in F])
    div_free(NNCovariance(3, L, E0, Ga, o, h).precompute_Spectrum(F), F)
if __name__ == "__main__": main()
