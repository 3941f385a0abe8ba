from common import *
import numpy as np, torch
from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra, generate_von_karman_spectra
def K(rng): 
    dt = rng.choice([torch.float32, torch.float64])
    return torch.tensor([10 ** rng.uniform(-4, 2.5) for _ in range(rng.randrange(1, 30))], dtype=dt)
def put(N): return np.zeros((N, 3, 3))
@test(n=30)
def kaimal(rng):
    k = K(rng); z = 10 ** rng.uniform(-1, 2.5); u = 10 ** rng.uniform(-2, 1); note(k1=k.tolist(), z=z, ustar=u)
    k0 = k.clone(); d = generate_kaimal_spectra(k, z, u)
    n = k0.double().numpy() * z / (2 * np.pi); X = put(len(k))
    X[:, 0, 0] = 52.5 * n / (1 + 33 * n) ** (5 / 3); X[:, 1, 1] = 8.5 * n / (1 + 9.5 * n) ** (5 / 3); X[:, 2, 2] = 1.05 * n / (1 + 5.3 * n ** (5 / 3)); X[:, 0, 2] = -7 * n / (1 + 9.6 * n) ** 2.4
    assert torch.equal(d["k1"], k0), "wavenumbers changed"
    close(d["ops"].double().numpy(), X * u ** 2, rtol=2e-5, atol=0, what="Kaimal")
@test(n=30)
def von_karman(rng):
    k = K(rng); L = 10 ** rng.uniform(-1, 2); C = 10 ** rng.uniform(-1, 1); note(k1=k.tolist(), L=L, C=C)
    k0 = k.clone(); d = generate_von_karman_spectra(k, L, C); x = k0.double().numpy(); X = put(len(k)); den = L ** -2 + x ** 2
    X[:, 0, 0] = x * 9 / 55 * C * den ** (-5 / 6); X[:, 1, 1] = X[:, 2, 2] = x * 3 / 110 * C * (3 * L ** -2 + 8 * x ** 2) * den ** (-11 / 6)
    assert torch.equal(d["k1"], k0), "wavenumbers changed"
    close(d["ops"].double().numpy(), X, rtol=2e-5, atol=0, what="von Karman")
if __name__ == "__main__": main()
