from common import *
from calref import *
import drdmannturb.spectra_fitting.calibration as CM
PAIR = ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))
def dataset(rng, n=None):
    n = n or rng.randint(3, 5); k1 = torch.tensor(np.sort(np.array([10 ** rng.uniform(-1, 1) for _ in range(n)])))
    T = torch.tensor(np.array([[[rng.choice([1, 1, -1]) * 10 ** rng.uniform(-2, .5) for _ in range(3)] for _ in range(3)] for _ in range(n)]))
    for i in range(3): T[:, i, i] = T[:, i, i].abs()
    return k1, T          # not symmetric on purpose: component ij is entry ij
def cohfile(rng):
    ns, nf = rng.randint(1, 5), rng.randint(2, 4); fr = sorted([rng.choice([0.0, 1e-7]), ] * rng.randint(0, 1) + [10 ** rng.choice([rng.uniform(-2, 1), rng.uniform(-5.9, -2)]) for _ in range(nf)]); nf = len(fr); se = sorted(10 ** rng.uniform(-1, 2) for _ in range(ns))
    C = {c: np.array([[rng.random() for _ in fr] for _ in se]) for c in "uvw"}; p = os.path.join(SCRATCH, "coh%d.dat" % rng.randrange(10 ** 9))
    with open(p, "w") as f:
        f.write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\n")
        for i, s in enumerate(se):
            for j, q in enumerate(fr): f.write("%d %d %.15g %.15g %.15g %.15g %.15g\n" % (i, j, s, q, C["u"][i, j], C["v"][i, j], C["w"][i, j]))
    return p, np.array(se), np.array(fr), C
class Spy:
    """records every evaluation of the loss"""
    def __enter__(s):
        s.calls = []; s.steps = 0; s.orig = CM.LossAggregator.eval; s.lb, s.ad = torch.optim.LBFGS.step, torch.optim.Adam.step; spy = s
        def ev(self, y, y_data, theta_NN, epoch, coherence_data=None, **k):
            r = spy.orig(self, y, y_data, theta_NN, epoch, coherence_data=coherence_data, **k)
            cp = lambda x: x.detach().clone() if torch.is_tensor(x) else np.array(x)
            spy.calls.append(dict(y=cp(y), d=cp(y_data), theta=None if theta_NN is None else cp(theta_NN) if torch.is_tensor(theta_NN) else theta_NN, params=spy.c.parameters.copy(), coh=None if coherence_data is None else {k: cp(v) for k, v in coherence_data.items()}, loss=float(r))); return r
        def wrap(f):
            def st(self, *a, **k): spy.steps += 1; return f(self, *a, **k)
            return st
        CM.LossAggregator.eval = ev; torch.optim.LBFGS.step = wrap(s.lb); torch.optim.Adam.step = wrap(s.ad); return s
    def __exit__(s, *a): CM.LossAggregator.eval = s.orig; torch.optim.LBFGS.step = s.lb; torch.optim.Adam.step = s.ad
def run(rng, nepochs, coh=False, opt=None, kind=None, tol=None, loss=None, scale=1.0, n=5, k1T=None, comps=None):
    comps = comps or rng.choice((3, 4, 6)); kind = kind or rng.choice(ALL); lp = loss or LossParameters(alpha_pen1=rng.choice([0, rng.random()]), alpha_pen2=rng.choice([0, rng.random()]), beta_reg=rng.choice([0, rng.random()]), gamma_coherence=rng.choice([0, rng.random()]) if coh else 0)
    tol = rng.choice([1e-12, 10 ** rng.uniform(-1, 2)]) if tol is None else tol
    c, d = problem(rng, kind=kind, comps=comps, nepochs=nepochs, loss=lp, tol=tol, learning_rate=rng.choice([.1, .01, 1.0]) if opt is None else .001, wolfe_iter_count=rng.randint(1, 4), phys=dict(L=10 ** rng.uniform(-.5, .3), Gamma=rng.uniform(1, 4), sigma=10 ** rng.uniform(-.3, .3)), n=n)
    k1, T = k1T or dataset(rng); note(kind=kind, learn=d["learn"], comps=comps, nepochs=nepochs, tol=tol, coherence=coh, beta_reg=lp.beta_reg, gamma=lp.gamma_coherence, optimizer=opt.__name__ if opt else "LBFGS")
    f = cohfile(rng) if coh else None
    if coh and coh != 'default grid': g = rng.randint(4, 12); c.OPS.coh_grid_k2 = c.OPS.coh_grid_k3 = torch.cat((-torch.logspace(2, -2, g, dtype=torch.float64), torch.logspace(-2, 2, g, dtype=torch.float64)))
    with Spy() as s:
        s.c = c; ok = None
        try: r = c.calibrate({"k1": k1, "ops": T}, **({"coherence_data_file": f[0]} if coh else {}), **({"optimizer_class": opt} if opt else {}))
        except (RuntimeError, ValueError) as e:
            bad = s.calls and not np.isfinite(s.calls[-1]["loss"]) or "nan" in str(e).lower()
            if not bad and "finite" not in str(e): raise
            return c, d, s, None, k1, T, f, tol
    return c, d, s, r, k1, T, f, tol
def judge(c, d, s, r, k1, T, f, tol, nepochs):
    C = c.prob_params.num_components; final = c.parameters.copy(); want = torch.stack([T[:, i, j] for i, j in PAIR[:C]])
    check(len(s.calls) >= 1, "the loss is evaluated")
    for t, q in enumerate(s.calls[:3] + s.calls[-2:]):
        close(q["d"].numpy(), want.numpy(), rtol=1e-12, what="data compared (evaluation %d)" % t)
        if not np.isfinite(q["params"]).all(): continue
        c.parameters = q["params"].copy(); y = c.OPS(k1).detach().numpy()[:C]; close(q["y"].numpy(), y, rtol=1e-6, atol=1e-12, what="model spectrum compared (evaluation %d)" % t)
        if d["kind"] == "TAUNET": close(q["theta"].numpy(), torch.nn.utils.parameters_to_vector(c.OPS.tauNet.parameters()).detach().numpy(), rtol=1e-9, what="network parameters given to the regularisation")
        if f and t:          # the initial evaluation carries no coherence
            check(q["coh"] is not None, "coherence is compared"); path, se, fr, co = f; sel = np.linspace(0, len(se) - 1, 4, dtype=int)
            k = c.phys_params.wavenumber_conversion_factor * fr / c.phys_params.Uref; o = c.OPS; m = fr > 1e-6
            ref = np.ones((3, 4, len(fr)))
            if m.any(): ref[:, :, m] = c.OPS.SpectralCoherence(torch.tensor(k[m]), torch.tensor(se[sel])).detach().numpy()
            for x, nm in enumerate("uvw"):
                close(np.asarray(q["coh"]["data_" + nm]), co[nm][sel], rtol=1e-9, what="measured coherence " + nm); close(q["coh"]["model_" + nm].numpy(), ref[x], rtol=1e-5, atol=1e-9, what="model coherence " + nm)
    c.parameters = final
    if r is None: return
    check(np.isfinite(s.calls[-1]["loss"]), "completed although the loss is not finite"); check(s.steps <= nepochs, "number of epochs", s.steps)
    if s.steps < nepochs: check(s.calls[-1]["loss"] < tol, "stopped early with loss %r, tolerance %r" % (s.calls[-1]["loss"], tol))
    keys = {"L": np.exp(final[0]), "Γ": np.exp(final[1]), "σ": np.exp(final[2])}
    if c.prob_params.use_learnable_spectrum: keys.update(p=final[3], q=final[4])
    check(set(r) == set(keys), "reported parameters", sorted(r))
    for k in keys: close(float(r[k]), float(keys[k]), rtol=1e-9, what="reported " + k)
@test(14, cap=40)
def pairing(rng):
    n = rng.randint(1, 2); judge(*run(rng, n), n)
@test(8, cap=40)
def with_coherence(rng):
    n = rng.randint(1, 2); judge(*run(rng, n, coh=True), n)
@test(1, cap=40)
def default_coherence_grid(rng):
    judge(*run(rng, 1, coh="default grid", n=3, kind=rng.choice(["CONST", "TWOTHIRD"])), 1)
@test(5, cap=40)
def many_epochs(rng):
    n = rng.choice([0, 49, 50, 51, 60, 101]); judge(*run(rng, n, opt=torch.optim.Adam, kind=rng.choice(["CONST", "TWOTHIRD", "TAUNET"]), tol=1e-14, n=3), n)
@test(6)
def regularised(rng):
    for kind in ALL: judge(*run(rng, 1, kind=kind, loss=LossParameters(beta_reg=.5), n=3), 1)
@test(6)
def stops(rng):
    """a loss below the tolerance at once"""
    judge(*run(rng, 3, tol=1e9, n=3), 3)
@test(8)
def nonfinite(rng):
    k1, T = dataset(rng); i = rng.randrange(3); comps = rng.choice((3, 4, 6)); T[rng.randrange(len(k1)), i, i] = rng.choice([0.0, float("nan"), float("inf")])
    opt = rng.choice([None, torch.optim.Adam]); c, d, s, r, *_ = run(rng, 2 if opt is None else 1, opt=opt, k1T=(k1, T), tol=1e-9, n=3); check(r is None, "no error although the loss is not finite", [q["loss"] for q in s.calls][-1:])
main()
