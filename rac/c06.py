from common import *
from opsref import *
from drdmannturb.nn_modules import TauNet
def K(rng, n=None): return np.array([[rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 3) if rng.random() < .9 else 0.0 for _ in range(3)] for _ in range(n or rng.randrange(1, 8))]) + 0.0
def nz(k): return k[(np.abs(k) > 0).any(-1)]
def f(o, k): return o.EddyLifetime(torch.tensor(k)).detach().numpy()
def scramble(rng, m):
    with torch.no_grad():
        for p in m.parameters():
            if p.ndim == 2: p.copy_(torch.randn(p.shape) * 10 ** rng.uniform(-1, .5))
@test(n=60)
def laws(rng):
    o, d = build(rng); k = nz(K(rng)); 
    if not len(k): return
    if d["kind"] == "TAUNET": scramble(rng, o.tauNet)
    if rng.random() < .3: o(torch.tensor(ks(rng)))
    if rng.random() < .5:
        with torch.no_grad(): o.logLengthScale.add_(rng.uniform(-1, 1)); o.logTimeScale.add_(rng.uniform(-1, 1))
    note(k=k.tolist(), **{a: repr(v) for a, v in d.items()})
    y = f(o, k); close(y, lifetime(o, d, k, scales(o)), rtol=1e-7, atol=1e-300, what="eddy lifetime (%s)" % d["kind"])
    assert (y >= 0).all(), "negative lifetime"
    for c in range(3):
        s = np.ones(3); s[c] = -1; close(f(o, k * s), y, rtol=1e-12, what="sign of component %d" % c)
    with torch.no_grad(): o.logTimeScale.add_(np.log(2.5))
    close(f(o, k), 2.5 * y, rtol=1e-9, what="proportional to the time scale")
@test(n=12)
def approximation(rng):
    L, G = 10 ** rng.uniform(-1, 1.5), 10 ** rng.uniform(-1, 1); note(L=L, Gamma=G)
    mk = lambda L, G: OnePointSpectra(EddyLifetimeType.MANN_APPROX, PhysicalParameters(L=L, Gamma=G, sigma=1.0))
    o = mk(L, G); x = 10 ** np.linspace(-3, 3, 400)
    u = np.array([rng.uniform(-1, 1) for _ in range(3)]); u /= np.sqrt((u ** 2).sum())
    y = f(o, x[:, None] / L * u)
    assert (y > 0).all(), "lifetime not positive"
    t = np.log(x ** (-2 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -x ** -2.0)))
    c, b = np.polyfit(np.log(x), t, 1)
    close(np.log(y / G), c * np.log(x) + b, rtol=0, atol=.15, what="log of the approximate lifetime against the least-squares line through the Mann law")
    close(f(o, -x[:, None] / L * u), y, rtol=1e-12, what="evenness")
    close(f(mk(L, 3 * G), x[:, None] / L * u), 3 * y, rtol=1e-9, what="proportional to the time scale")
    close(f(mk(2 * L, G), x[:, None] / L / 2 * u), y, rtol=1e-7, what="depends on kL only")
@test(n=40)
def network(rng):
    depth = rng.randrange(1, 5); w = [rng.randrange(1, 7) for _ in range(depth)]; nu = rng.uniform(-1, 1); ln = rng.random() < .5
    acts = None; fs = [lambda z: np.maximum(z, 0)] * depth
    if rng.random() < .5:
        pool = [(torch.nn.ReLU(), lambda z: np.maximum(z, 0)), (torch.nn.Tanh(), np.tanh), (torch.nn.Sigmoid(), lambda z: 1 / (1 + np.exp(-z)))]
        ch = [rng.choice(pool) for _ in range(depth)]; acts = [a for a, _ in ch]; fs = [b for _, b in ch]
        if rng.random() < .3: acts = acts[0]; fs = [fs[0]] * depth
    t = TauNet(depth, w if rng.random() < .7 or len(set(w)) > 1 else w[0], activations=acts, learn_nu=ln, nu_init=nu); scramble(rng, t)
    k = nz(K(rng)); note(depth=depth, widths=w, nu=nu, k=k.tolist(), learn_nu=ln)
    if not len(k): return
    y = t(torch.tensor(k)).detach().numpy(); x = np.abs(k); h = x
    W = [l.weight.detach().numpy() for l in t.linears]
    assert len(W) == depth + 1 and [a.shape for a in W] == list(zip(w + [3], [3] + w)), "layer shapes %s" % [a.shape for a in W]
    for a, g in zip(W[:-1], fs): h = g(h @ a.T)
    r = np.sqrt(((x + h @ W[-1].T) ** 2).sum(-1)); n = float(t.Ra.nu); assert abs(n - nu) < 1e-6, "exponent %r" % n
    close(y, r ** (n - 2 / 3) / (1 + r ** 2) ** (n / 2), rtol=1e-8, what="network lifetime")
    for c in range(3):
        s = np.ones(3); s[c] = -1; close(t(torch.tensor(k * s)).detach().numpy(), y, rtol=1e-12, what="sign of component %d" % c)
if __name__ == "__main__": main()
