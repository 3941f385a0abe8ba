from common import *
from opsref import *
import copy
@test(n=40)
def spectra_formula(rng):
    o, d = build(rng); k1 = ks(rng); note(k1=k1.tolist(), **{k: repr(v) for k, v in d.items()})
    y = o(torch.tensor(k1)).detach().numpy()
    assert y.shape == (6, len(k1)), "shape %s" % (y.shape,)
    close(y, spectra(o, d, k1), rtol=1e-6, atol=1e-11, what="one-point spectra")
    assert (y[:3] > 0).all(), "auto-spectrum not positive"
@test(n=20)
def own_wavenumber_only(rng):
    o, d = build(rng); k1 = ks(rng, 5); note(k1=k1.tolist(), **{k: repr(v) for k, v in d.items()})
    y = o(torch.tensor(k1)).detach().numpy()
    p = list(range(5)); rng.shuffle(p)
    close(o(torch.tensor(k1[p])).detach().numpy(), y[:, p], rtol=1e-9, what="reordered wavenumbers")
    close(o(torch.tensor(k1[2:3])).detach().numpy(), y[:, 2:3], rtol=1e-9, what="single wavenumber")
@test(n=15)
def history(rng):
    o, d = build(rng); k1 = ks(rng); o(torch.tensor(ks(rng)))
    if rng.random() < .5:
        with torch.no_grad():
            for p in o.parameters(): p.add_(torch.randn(p.shape) * 0.1)
    if rng.random() < .7: o(torch.tensor(ks(rng, len(k1))))
    if rng.random() < .5: o.SpectralCoherence(torch.tensor(ks(rng)), torch.tensor([1.0]))
    note(k1=k1.tolist(), **{k: repr(v) for k, v in d.items()})
    close(o(torch.tensor(k1)).detach().numpy(), spectra(o, d, k1), rtol=1e-6, atol=1e-11, what="spectra after earlier evaluations")
@test(n=10)
def default_grids(rng):
    o, d = build(rng)
    o2 = OnePointSpectra(EddyLifetimeType.CONST, PhysicalParameters(L=1.0, Gamma=1.0, sigma=1.0))
    d2 = dict(kind="CONST", learn=False, I=IntegrationParameters()); k1 = ks(rng, 1); note(k1=k1.tolist())
    close(o2(torch.tensor(k1)).detach().numpy(), spectra(o2, d2, k1), rtol=1e-6, atol=1e-11, what="default integration grid")
if __name__ == "__main__": main()
