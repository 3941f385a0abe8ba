from common import *
from fluctref import *
from drdmannturb.fluctuation_generation import wind_plot as W
from drdmannturb.fluctuation_generation import fluctuation_field_generator as F
def field(rng):
    n = tuple(rng.randrange(2, 7) for _ in range(3)); h = [rng.choice([rng.uniform(.05, 4), float(rng.randrange(1, 4))]) for _ in range(3)]
    f = np.random.standard_normal(n + (3,))
    if rng.random() < .3: f = np.asfortranarray(f)
    if rng.random() < .3: f = np.moveaxis(np.ascontiguousarray(np.moveaxis(f, -1, 0)), 0, -1)
    return n, h, f
def d1(u, h):
    """derivative along axis 0"""
    r = np.empty_like(u); r[0] = (u[1] - u[0]) / h; r[-1] = (u[-1] - u[-2]) / h
    for i in range(1, len(u) - 1): r[i] = (u[i + 1] - u[i - 1]) / (2 * h)
    return r
@test(n=30)
def divergence(rng):
    g, d = gen(rng); n, h, f = field(rng); note(shape=list(n), spacing=h); sp = rng.choice([tuple, list, np.array])(h)
    want = sum(np.moveaxis(d1(np.moveaxis(f[..., a], a, 0), h[a]), 0, a) for a in range(3)); keep = f.copy()
    if rng.random() < .5: g.total_fluctuation = f; out = g.evaluate_divergence(sp)
    else:
        g.total_fluctuation = rng.choice([None, np.zeros(n + (3,))]); out = g.evaluate_divergence(sp, f)
    close(out, want, what="divergence"); check((f == keep).all(), "field changed by the divergence utility")
@test(n=10)
def rejected(rng):
    g, d = gen(rng); n, h, f = field(rng); k = rng.choice([0, 1, 2, 4, 5]); note(spacings=k)
    raises(ValueError, g.evaluate_divergence, np.ones(k), f)
    raises(ValueError, g.evaluate_divergence, tuple(h), np.zeros(n + (rng.choice([1, 2, 4, 6]),)))
@test(n=15)
def vtk(rng):
    g, d = gen(rng); D, lv = d["D"], d["levels"]; N = tuple(int(2 ** l + 1) for l in lv); blocks = rng.randrange(1, 3)
    f = np.random.standard_normal((N[0] * blocks,) + N[1:] + (3,)); g.total_fluctuation = f; log = []
    note(**show(d))
    import pyevtk.hl as hl
    saved = {}
    rec = lambda *a, **k: log.append((a, k)) or "x"
    spots = [(hl, "imageToVTK")] + [(F, nm) for nm in dir(F) if getattr(F, nm) is hl.imageToVTK]
    orig = hl.imageToVTK
    for m, nm in spots: setattr(m, nm, rec)
    try: g.save_to_vtk("some/where")
    finally:
        for m, nm in spots: setattr(m, nm, orig)
    check(len(log) == 1, "one export", len(log)); a, k = log[0]
    k = dict(zip(("path", "origin", "spacing", "cellData", "pointData", "fieldData"), a), **k)
    check(k["path"] == "some/where", "path", k["path"]); close(np.array(k["spacing"], float), D / np.array(N), what="spacing")
    w = k["cellData"]["wind"]; check(isinstance(w, tuple) and len(w) == 3, "three components")
    for c in range(3):
        close(w[c], f[..., c], rtol=0, atol=0, what="component " + "uvw"[c]); check(w[c].flags.c_contiguous or w[c].flags.f_contiguous, "contiguous data")
@test(n=4)
def vtk_file(rng):
    g, d = gen(rng); N = tuple(int(2 ** l + 1) for l in d["levels"]); f = np.random.standard_normal(N + (3,)); g.total_fluctuation = f
    g.save_to_vtk("field"); raw = open("field.vti", "rb").read()
    import re
    head = raw[:raw.index(b"<AppendedData")].decode(); note(header=head)
    try: sp = [float(x) for x in re.search(r'Spacing="([^"]*)"', head).group(1).split()]
    except ValueError as e: raise AssertionError("the spacing in the exported file cannot be read: %s" % re.search(r'Spacing="[^"]*"', head).group(0))
    close(np.array(sp), d["D"] / np.array(N), what="spacing in the file"); check([int(x) for x in re.search(r'WholeExtent="([^"]*)"', head).group(1).split()] == [0, N[0], 0, N[1], 0, N[2]], "extent in the file")
    off = int(re.search(r'<DataArray Name="wind"[^>]*offset="(\d+)"', head).group(1)); check('NumberOfComponents="3" type="Float64"' in head, "three components")
    i = raw.index(b'encoding="raw">') + len(b'encoding="raw">'); i = raw.index(b"_", i) + 1 + off
    data = np.frombuffer(raw[i + 8:i + 8 + 8 * f.size], dtype="<f8").reshape(-1, 3)
    for c in range(3): close(data[:, c], f[..., c].ravel(order="F"), rtol=0, atol=0, what="cell data component %d in the file" % c)
@test(n=20)
def grid(rng):
    n, h, f = field(rng); note(shape=list(n), spacing=h)
    X = W.create_grid(tuple(h), n); check(len(X) == 3, "three coordinates"); I = np.indices(n)
    for a in range(3): close(np.asarray(X[a]), I[a] * h[a], what="coordinate %d" % a)
    o = W.format_wind_field(f); keep = f.copy(); check(len(o) == 3, "three components")
    for c in range(3):
        close(o[c], f[..., c], rtol=0, atol=0, what="component %d" % c); check(not np.shares_memory(o[c], f), "independent copy"); o[c][...] = 9
    check((f == keep).all(), "writing the copy changed the field")
@test(n=12)
def plots(rng):
    n, h, f = field(rng); note(shape=list(n), spacing=h); I = np.indices(n); keep = f.copy()
    fig = W.plot_velocity_components(tuple(h), f); check(len(fig.data) == 3, "three volumes")
    def coords(t):
        for a, nm in enumerate("xyz"): close(np.asarray(t[nm], float), (I[a] * h[a]).ravel(), what="coordinate " + nm)
    for c in range(3): coords(fig.data[c]); close(np.asarray(fig.data[c]["value"], float), f[..., c].ravel(), what="value of component %d" % c)
    m = W.plot_velocity_magnitude(tuple(h), f, transparent=rng.random() < .5); check(len(m.data) == 1, "one volume"); coords(m.data[0])
    close(np.asarray(m.data[0]["value"], float), np.sqrt((f ** 2).sum(-1)).ravel(), what="magnitude"); check((f == keep).all(), "field changed by plotting")
if __name__ == "__main__": main()
