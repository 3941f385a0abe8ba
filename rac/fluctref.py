"""small generators with random settings, and references"""
import os, numpy as np
os.environ.setdefault("OMP_NUM_THREADS", "1")
from drdmannturb.fluctuation_generation.fluctuation_field_generator import FluctuationFieldGenerator
def gen(rng, model=None, blend=None, seed=None, maxlevel=3, **kw):
    model = model or rng.choice(["VK", "Mann"])
    lv = np.array([rng.randrange(1, maxlevel + 1) for _ in range(3)])
    D = np.array([rng.uniform(5, 30) for _ in range(3)])
    L = rng.uniform(.3, .8) * D.min() / 3; T = rng.uniform(.3, 2.0)
    d = dict(model=model, levels=lv, D=D, L=L, T=T, E0=10 ** rng.uniform(-1, 1), ustar=rng.uniform(.2, 2), zref=rng.uniform(10, 90), blend=rng.choice([0, 1, 2, 5, 10]) if blend is None else blend, seed=seed if seed is not None else rng.choice([rng.randrange(1, 10 ** 6)] * 3 + [0]))
    g = FluctuationFieldGenerator(d["ustar"], d["zref"], D, lv, model, length_scale=L, time_scale=T, energy_spectrum_scale=d["E0"], seed=d["seed"], blend_num=d["blend"], **kw)
    return g, d
def show(d): return {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in d.items()}
PARAMS = dict(zref=90.0, uref=11.0, z0=.05, windprofiletype="LOG")
def profile(p, z):
    if p["windprofiletype"] == "LOG": return p["uref"] * np.log(z / p["z0"] + 1) / np.log(p["zref"] / p["z0"])
    return p["uref"] * (z / p["zref"]) ** p["plexp"]
def params(rng):
    p = dict(zref=rng.uniform(5, 120), uref=rng.uniform(1, 30), z0=10 ** rng.uniform(-4, 0), windprofiletype=rng.choice(["LOG", "PL"]))
    if p["windprofiletype"] == "PL" or rng.random() < .3: p["plexp"] = rng.choice([0.0, rng.uniform(.05, .5), -.1, 1.0])
    return p
