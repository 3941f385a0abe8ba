from common import *
from calref import *
import pickle, pathlib, dataclasses
from drdmannturb.fluctuation_generation.fluctuation_field_generator import FluctuationFieldGenerator
from drdmannturb.fluctuation_generation.nn_covariance import NNCovariance
def frq(rng): return [np.array([rng.choice([0.0, rng.uniform(-3, 3), 10 ** rng.uniform(-2, 1), -(10 ** rng.uniform(-2, 1))]) for _ in range(rng.randrange(1, 4))]) for _ in range(3)]
def iso(L, E0, k): return E0 * L ** (17 / 3) / (4 * np.pi) / (1 + L ** 2 * (k ** 2).sum(0)) ** (17 / 6) * (np.eye(3)[:, :, None, None, None] * (k ** 2).sum(0) - k[:, None] * k[None])
def kernel_is(c, F, L, E0, Ga, ops):
    G = c.precompute_Spectrum(F); assert np.isfinite(G).all(), "non-finite kernel entry"
    k = np.array(np.meshgrid(*F, indexing="ij")); kk = (k ** 2).sum(0)
    with np.errstate(all="ignore"):
        b = Ga * net(ops, np.moveaxis(k, 0, -1) * L); b[kk == 0] = 0
        k1, k2, k3 = k; k30 = k3 + b * k1; k0 = np.array([k1, k2, k30]); kk0 = (k0 ** 2).sum(0); s = k1 ** 2 + k2 ** 2
        C1 = b * k1 ** 2 * (kk0 - 2 * k30 ** 2 + b * k1 * k30) / (kk * s); C2 = k2 * kk0 / s ** 1.5 * np.arctan2(b * k1 * np.sqrt(s), kk0 - k30 * k1 * b)
        A = np.zeros((3, 3) + kk.shape); A[0, 0] = A[1, 1] = 1; A[0, 2] = C1 - k2 / k1 * C2; A[1, 2] = k2 / k1 * C1 + C2; A[2, 2] = kk0 / kk
        Q = np.where(k1 == 0, iso(L, E0, k), np.einsum("im...,mn...,jn...->ij...", A, iso(L, E0, k0), A))
    ok = np.isfinite(Q).all(axis=(0, 1)) & ((k1 == 0) | (np.abs(k1) > 1e-2 * np.sqrt(kk))); P = np.einsum("im...,jm...->ij...", G, G.conj())
    sc = np.abs(Q).max(axis=(0, 1)); bad = ok & (np.abs(P - Q).max(axis=(0, 1)) > 1e-5 * sc + 1e-280)
    if bad.any(): i = tuple(int(x[0]) for x in np.where(bad)); raise AssertionError("kernel at wavevector %s: %s, contract %s" % (k[(slice(None),) + i], P[(slice(None), slice(None)) + i].real.tolist(), Q[(slice(None), slice(None)) + i].tolist()))
    if (kk == 0).any(): assert (G[:, :, kk == 0] == 0).all(), "kernel at k = 0 is not zero"
@test(40)
def kernel(rng):
    o, d = build(rng, kind="TAUNET"); F = frq(rng); L, E0, Ga = 10 ** rng.uniform(-1, 1), 10 ** rng.uniform(-2, 2), rng.uniform(.1, 4); note(L=L, E0=E0, Gamma=Ga, F=[f.tolist() for f in F])
    kernel_is(NNCovariance(ndim=3, length_scale=L, E0=E0, Gamma=Ga, ops=o, h_ref=10 ** rng.uniform(-1, 2)), F, L, E0, Ga, o)
@test(25)
def roundtrip(rng):
    comps = rng.choice((3, 4, 6)); learn = rng.random() < .5
    lp = LossParameters(alpha_pen1=rng.choice([0, rng.random()]), alpha_pen2=rng.choice([0, rng.random()]), beta_reg=rng.choice([0, rng.random()]))
    c, d = problem(rng, kind="TAUNET", learn=learn, comps=comps, nepochs=1, loss=lp, wolfe_iter_count=3, init_with_noise=False, phys=dict(L=10 ** rng.uniform(-.5, .2), Gamma=rng.uniform(1, 4))); n = len(c.parameters)
    how = rng.choice(["fresh", "written", "calibrated", "two writes"]); note(how=how, comps=comps, learn=learn, L=d["L"], Gamma=d["Gamma"])
    def write():
        v = c.parameters.copy(); v[:3] = np.array([rng.uniform(-1, .5), rng.uniform(-.5, 1.2), rng.uniform(-1, 2)])
        if learn: v[3:5] = [rng.uniform(2, 5), rng.uniform(1.5, 3.5)]
        m = 5 if learn else 3; v[m:] += np.random.randn(n - m) * .3; c.parameters = v if rng.random() < .5 else torch.tensor(v)
    if how in ("written", "two writes"): write()
    if how == "calibrated":
        k1 = torch.tensor(np.geomspace(.1, 5, 4)); data = torch.stack([k1 ** (-5 / 3) * a for a in (.4, .3, .3, -.1, .05, .05)][: {3: 3, 4: 4, 6: 6}[comps]], -1)
        T = torch.zeros(len(k1), 3, 3); 
        for m, (i, j) in enumerate(((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))[:data.shape[1]]): T[:, i, j] = data[:, m]
        try: c.calibrate(data={'k1': k1, 'ops': T})
        except RuntimeError as e: raise Inconclusive(str(e))
        if not np.isfinite(c.parameters).all(): raise Inconclusive("calibration left the reals")
    dest = rng.choice([None, "str", "path"]); base = os.path.join(SCRATCH, "d%d" % rng.randrange(10 ** 9)); os.makedirs(base)
    c.output_directory = base if dest is None else None
    sd = {None: None, "str": base, "path": pathlib.Path(base)}[dest]
    c.save_model(sd)
    if how == "two writes": write(); c.save_model(sd)
    saved = c.parameters.copy(); f = [x for x in os.listdir(base)]; check(len(f) == 1, "one file is written", f); path = os.path.join(base, f[0])
    raw = pickle.load(open(path, "rb")); close(raw[4], saved, rtol=0, atol=0, what="parameter vector in the file")
    for nm, a, b in (("network", raw[0], c.nn_params), ("problem", raw[1], c.prob_params), ("loss", raw[2], c.loss_params), ("physical", raw[3], c.phys_params)):
        for fl in dataclasses.fields(b):
            x, y = getattr(a, fl.name), getattr(b, fl.name)
            check((len(x) == len(y) if isinstance(y, list) else bool(np.all(np.asarray(x) == np.asarray(y)))), "%s setting %s" % (nm, fl.name), x, y)
    kx = torch.rand(6, 3) * 5; before = c.OPS.tauNet(kx).detach().numpy(); oldnet = lambda F, *a: None
    us, zr = rng.uniform(.1, 2), 10 ** rng.uniform(-.5, 2); L, T, M = np.exp(saved[:3])
    D = np.array([rng.uniform(3, 8) for _ in range(3)]) * L * zr; lv = np.array([rng.randint(1, 3) for _ in range(3)])
    g = FluctuationFieldGenerator(us, zr, D, lv, "DRD", path_to_parameters=rng.choice([path, pathlib.Path(path)]), blend_num=rng.randint(0, 3), seed=1); k = g.RF.Covariance
    close(np.concatenate([p.detach().numpy().ravel() for p in k.OPS.parameters()]), saved, rtol=1e-6, what="parameter vector of the generator's model")
    close(k.L, L * zr, rtol=1e-6, what="length scale"); close(k.Gamma, T, rtol=1e-6, what="time scale"); close(k.E0, 4 * np.pi * L ** (-5 / 3) * M * us ** 2 * zr ** (-2 / 3), rtol=1e-6, what="energy scale")
    close(k.OPS.tauNet(kx).detach().numpy(), before, rtol=1e-6, what="lifetime of the generator's network"); kernel_is(k, [x / (L * zr) for x in frq(rng)], L * zr, float(k.E0), T, c.OPS)
    b = g.generate(1, zref=zr, uref=10.0, z0=zr * 1e-3, windprofiletype="LOG"); check(b.shape == tuple(2 ** lv + 1) + (3,) and np.isfinite(b).all(), "a field is generated", b.shape)
main()
