from common import *
from opsref import *
@test(n=40)
def fitted_spectra(rng):
    o, d = build(rng); k1 = ks(rng); note(k1=k1.tolist(), **{k: repr(v) for k, v in d.items()})
    y = o(torch.tensor(k1)).detach().numpy()
    close(y, spectra(o, d, k1), rtol=1e-6, atol=1e-11, what="one-point spectra")
@test(n=25)
def coherence_tensor(rng):
    o, d = build(rng, coherence=True); k1 = ks(rng); seps = [0.0] + [rng.uniform(-20, 20) for _ in range(2)]
    note(k1=k1.tolist(), seps=seps, **{k: repr(v) for k, v in d.items()})
    y = o.SpectralCoherence(torch.tensor(k1), torch.tensor(seps)).detach().numpy()
    I = d["I"]; g = grid(I.coh_log_min, I.coh_log_max, I.coh_num_points) / d["L"]
    close(y, coherence(o, d, k1, seps, g), rtol=1e-6, atol=1e-9, what="coherence")
if __name__ == "__main__": main()
