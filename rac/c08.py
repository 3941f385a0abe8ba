from common import *
from calref import *
def nparams(o): return sum(p.numel() for p in o.parameters())
@test(n=25)
def alone(rng):
    o, d = build(rng, kind=rng.choice(ALL)); note(**{a: repr(v) for a, v in d.items()})
    close(np.array(o.exp_scales()), np.array([d["L"], d["Gamma"], d["sigma"]]), rtol=1e-9, what="scales")
    v = torch.nn.utils.parameters_to_vector(o.parameters()).detach().numpy()
    w = [np.log(d["L"]), np.log(d["Gamma"]), np.log(d["sigma"])] + ([d["p"], d["q"]] if d["learn"] else [])
    close(v[:len(w)], np.array(w), rtol=1e-6, what="head of the parameter vector")
    close(np.array([float(o.LengthScale), float(o.TimeScale), float(o.Magnitude)]), np.array([d["L"], d["Gamma"], d["sigma"]]), rtol=1e-9, what="scales in use")
@test(n=25)
def inside(rng):
    c, d = problem(rng); note(**{a: repr(v) for a, v in d.items()})
    close(np.array(c.OPS.exp_scales()), np.array([d["L"], d["Gamma"], d["sigma"]]), rtol=1e-9, what="scales")
    w = [np.log(d["L"]), np.log(d["Gamma"]), np.log(d["sigma"])] + ([d["p"], d["q"]] if d["learn"] else [])
    close(c.parameters[:len(w)], np.array(w), rtol=1e-6, what="head of the parameter vector")
    assert len(c.parameters) == nparams(c.OPS), "length of the parameter vector"
    if d["kind"] != "MANN_APPROX":
        k1 = ks(rng); dd = dict(d); sc = (d["L"], d["Gamma"], d["sigma"])
        y = c.eval(torch.tensor(k1)); I = d["I"]; g = grid(I.ops_log_min, I.ops_log_max, I.ops_num_points); k = np.stack(np.meshgrid(k1, g, g, indexing="ij"), -1)
        close(y, np.array([k1 * trapz(trapz(P, g), g) for P in tensor(c.OPS, dd, k, sc, 1e-12)]), rtol=1e-6, atol=1e-11, what="evaluation with the given scales")
@test(n=25)
def roundtrip(rng):
    c, d = problem(rng); n = nparams(c.OPS); v = np.random.randn(n) * .5; note(**{a: repr(x) for a, x in d.items()})
    if d["learn"]: v[3:5] = np.abs(v[3:5]) + 1
    w = v.copy(); used = d['kind'] != 'MANN_APPROX' and rng.random() < .6
    if used: c.eval(torch.tensor(ks(rng)))
    c.parameters = v if rng.random() < .5 else torch.tensor(v)
    close(c.parameters, w, rtol=1e-12, what="vector read back")
    if d["kind"] in ("CONST", "MANN", "TWOTHIRD"):
        kv = np.random.randn(3, 3); close(c.OPS.EddyLifetime(torch.tensor(kv)).detach().numpy(), lifetime(c.OPS, d, kv, tuple(np.exp(w[:3]))), rtol=1e-7, what="eddy lifetime after writing")
    close(np.array(c.OPS.exp_scales()), np.exp(w[:3]), rtol=1e-9, what="scales after writing")
    if d["learn"]: close(np.array([float(c.OPS.p_exponent), float(c.OPS.q_exponent)]), w[3:5], what="p, q after writing")
    x = c.parameters; x[:] = 7; close(c.parameters, w, rtol=1e-12, what="changing the returned copy leaves the model alone")
    for m in {n - 1, n + 1, n + rng.randrange(2, 9), 1, 3, 5, 0} - {n}:
        raises((ValueError, RuntimeError, IndexError), setattr, c, "parameters", np.random.randn(m))
        close(c.parameters, w, rtol=1e-12, what="model after a rejected vector of length %d" % m)
if __name__ == "__main__": main()
