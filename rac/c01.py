from common import *
import numpy as np
from scipy.special import hyp2f1
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance, VonKarmanCovariance

def frq(rng):
    out = []
    for _ in range(3):
        n = rng.randrange(1, 5)
        f = np.array([rng.choice([0.0, rng.uniform(-8, 8), 10 ** rng.uniform(-3, 2), -(10 ** rng.uniform(-3, 2))]) for _ in range(n)])
        out.append(f)
    return out
def params(rng): return 10 ** rng.uniform(-1.3, 1.7), 10 ** rng.uniform(-2, 2), rng.choice([0.0, rng.uniform(0, 5), 10 ** rng.uniform(-1, 1)])
def iso(L, E0, k):
    kk = (k ** 2).sum(0)
    e = E0 * L ** (17 / 3) / (4 * np.pi) / (1 + L ** 2 * kk) ** (17 / 6)
    return e * (np.eye(3)[:, :, None, None, None] * kk - k[:, None] * k[None])
def gram(G): return np.einsum("im...,jm...->ij...", G, G.conj())
def compare(P, Q, what):
    # relative to the largest entry of the 3x3 tensor at each wavevector
    s = np.abs(Q).max(axis=(0, 1)); d = np.abs(P - Q).max(axis=(0, 1))
    assert np.isfinite(P).all(), what + ": non-finite entry"
    bad = d > 1e-6 * s + 1e-280
    if bad.any():
        i = tuple(int(x[0]) for x in np.where(bad)); raise AssertionError("%s: at grid index %s code %s contract %s" % (what, i, P[(slice(None), slice(None)) + i].tolist(), Q[(slice(None), slice(None)) + i].tolist()))

@test(n=40)
def von_karman(rng):
    L, E0, _ = params(rng); F = frq(rng); note(L=L, E0=E0, F=[f.tolist() for f in F])
    G = VonKarmanCovariance(3, L, E0).precompute_Spectrum(F)
    k = np.array(np.meshgrid(*F, indexing="ij"))
    compare(gram(G), iso(L, E0, k), "von Karman")
@test(n=60)
def mann(rng):
    L, E0, Ga = params(rng); F = frq(rng); note(L=L, E0=E0, Gamma=Ga, F=[f.tolist() for f in F])
    G = MannCovariance(3, L, E0, Ga).precompute_Spectrum(F)
    k = np.array(np.meshgrid(*F, indexing="ij")); kk = (k ** 2).sum(0)
    assert np.isfinite(G).all(), "non-finite kernel entry"
    with np.errstate(all="ignore"):
        b = Ga * (kk * L ** 2) ** (-1 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1 / (kk * L ** 2)))
        b[kk == 0] = 0
        k1, k2, k3 = k; k30 = k3 + b * k1; k0 = np.array([k1, k2, k30]); kk0 = (k0 ** 2).sum(0); s = k1 ** 2 + k2 ** 2
        C1 = b * k1 ** 2 * (kk0 - 2 * k30 ** 2 + b * k1 * k30) / (kk * s)
        C2 = k2 * kk0 / s ** 1.5 * np.arctan2(b * k1 * np.sqrt(s), kk0 - k30 * k1 * b)
        A = np.zeros((3, 3) + kk.shape); A[0, 0] = A[1, 1] = 1; A[0, 2] = C1 - k2 / k1 * C2; A[1, 2] = k2 / k1 * C1 + C2; A[2, 2] = kk0 / kk
        Q = np.einsum("im...,mn...,jn...->ij...", A, iso(L, E0, k0), A)
    Q0 = iso(L, E0, k)
    Q = np.where(k1 == 0, Q0, Q)
    # cancellation in k0: skip badly conditioned wavevectors
    P = gram(G)
    ok = np.isfinite(Q).all(axis=(0, 1)) & (np.abs(k).max(0) < 1e3) & ((k1 == 0) | (np.abs(k1) > 1e-3 * np.sqrt(kk)))
    compare(P * ok, np.where(ok, Q, 0), "Mann")
    if (kk == 0).any(): assert (G[:, :, kk == 0] == 0).all(), "kernel at k=0 is not zero"
if __name__ == "__main__": main()
