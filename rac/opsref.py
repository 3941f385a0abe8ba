"""float64 reference of the one-point spectra model, from its documentation"""
import numpy as np, torch
from scipy.special import hyp2f1
from drdmannturb.parameters import PhysicalParameters, NNParameters, IntegrationParameters
from drdmannturb.enums import EddyLifetimeType
from drdmannturb.spectra_fitting.one_point_spectra import OnePointSpectra
torch.set_default_dtype(torch.float64)
KINDS = ["CONST", "TWOTHIRD", "MANN", "TAUNET"]
def build(rng, kind=None, learn=None, coherence=False, n=None):
    kind = kind or rng.choice(KINDS); learn = rng.random() < .3 if learn is None else learn
    L, G, M = 10 ** rng.uniform(-1, 1), 10 ** rng.uniform(-.5, .8), 10 ** rng.uniform(-1, 2)
    a = rng.uniform(-3, -1); N = n or rng.randrange(2, 9)
    I = IntegrationParameters(ops_log_min=a, ops_log_max=a + rng.uniform(1, 4), ops_num_points=N)
    I.coh_log_min = rng.uniform(-3, -1); I.coh_log_max = I.coh_log_min + rng.uniform(1, 4); I.coh_num_points = rng.randrange(2, 9)
    p, q = rng.uniform(2, 5), rng.uniform(1.5, 3.5)
    kw = dict(use_learnable_spectrum=True, p_exponent=p, q_exponent=q) if learn else {}
    o = OnePointSpectra(getattr(EddyLifetimeType, kind), PhysicalParameters(L=L, Gamma=G, sigma=M), NNParameters(nlayers=rng.randrange(1, 4), hidden_layer_size=rng.randrange(1, 8)), learn_nu=rng.random() < .5, use_coherence=coherence, integration_params=I, **kw)
    if rng.random() < .4: o.eval()
    d = dict(kind=kind, learn=learn, L=L, Gamma=G, sigma=M, p=p, q=q, I=I)
    return o, d
def grid(lo, hi, N):
    g = 10 ** (lo + np.arange(N) * (hi - lo) / (N - 1)); return np.concatenate((-g[::-1], [0.0], g))
def scales(o, d=None): return tuple(float(x) for x in o.exp_scales())
def net(o, x):
    """|a|^(nu-2/3)/(1+|a|^2)^(nu/2), a = |x| + NN(|x|)"""
    t = o.tauNet; nu = float(t.Ra.nu); y = np.abs(x); h = y
    W = [l.weight.detach().numpy() for l in t.linears]
    for w in W[:-1]: h = np.maximum(h @ w.T, 0)
    r = np.sqrt(((y + h @ W[-1].T) ** 2).sum(-1))
    return r ** (nu - 2 / 3) / (1 + r ** 2) ** (nu / 2)
def lifetime(o, d, k, sc):
    L, G, M = sc; kL = L * np.sqrt((k ** 2).sum(-1))
    with np.errstate(all="ignore"):
        if d["kind"] == "CONST": return G * np.ones_like(kL)
        if d["kind"] == "TWOTHIRD": return G * kL ** (-2 / 3)
        if d["kind"] == "MANN": return G * kL ** (-2 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -kL ** -2.0))
        return G * net(o, k * L)
def tensor(o, d, k, sc, eps):
    """six floored components at wavevectors k (...,3)"""
    L, G, M = sc; b = lifetime(o, d, k, sc)
    k1, k2, k3 = k[..., 0], k[..., 1], k[..., 2]; k30 = k3 + b * k1
    k0 = np.stack((k1, k2, k30)); kk0 = (k0 ** 2).sum(0); kk = (k ** 2).sum(-1); s = k1 ** 2 + k2 ** 2
    C1 = b * k1 ** 2 * (kk0 - 2 * k30 ** 2 + b * k1 * k30) / (kk * s)
    C2 = k2 * kk0 / s ** 1.5 * np.arctan2(b * k1 * np.sqrt(s), kk0 - k30 * k1 * b)
    A = np.zeros((3, 3) + kk.shape); A[0, 0] = A[1, 1] = 1; A[0, 2] = C1 - k2 / k1 * C2; A[1, 2] = k2 / k1 * C1 + C2; A[2, 2] = kk0 / kk
    x = L * np.sqrt(kk0)
    pq = (float(o.p_exponent), float(o.q_exponent)) if d["learn"] else (4, 17 / 6)
    e = M * L ** (5 / 3) * x ** pq[0] / (1 + x ** 2) ** pq[1]
    iso = e / (4 * np.pi * kk0 ** 2) * (np.eye(3).reshape((3, 3) + (1,) * kk.ndim) * kk0 - k0[:, None] * k0[None])
    P = np.einsum("im...,mn...,jn...->ij...", A, iso, A)
    out = []
    for (i, j) in ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)):
        p = P[i, j]
        out.append(np.where(np.abs(p) < eps, eps * np.sign(p), p) if (i, j) == (0, 2) else np.where(p < eps, eps, p))
    return out
def trapz(f, x): return (np.diff(x) * (f[..., 1:] + f[..., :-1]) / 2).sum(-1)
def spectra(o, d, k1, eps=1e-12):
    sc = scales(o); I = d["I"]; g = grid(I.ops_log_min, I.ops_log_max, I.ops_num_points)
    k = np.stack(np.meshgrid(k1, g, g, indexing="ij"), -1)
    return np.array([k1 * trapz(trapz(P, g), g) for P in tensor(o, d, k, sc, eps)])
def coherence(o, d, k1, seps, g):
    sc = scales(o); k = np.stack(np.meshgrid(k1, g, g, indexing="ij"), -1)
    P = tensor(o, d, k, sc, 1e-32)[:3]
    out = np.zeros((3, len(seps), len(k1)))
    for c in range(3):
        S0 = trapz(trapz(P[c], g), g)
        for i, r in enumerate(seps): out[c, i] = np.abs(trapz(trapz(P[c] * np.exp(1j * k[..., 1] * r), g), g)) ** 2 / np.abs(S0) ** 2
    return out
def ks(rng, n=None):
    return np.array([10 ** rng.uniform(-2, 2) for _ in range(n or rng.randrange(1, 6))])
