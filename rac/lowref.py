import numpy as np, math
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
def cfg(rng, small=False):
    L = 10 ** rng.uniform(2, 5)
    e1 = rng.randrange(2, 6); e2 = rng.randrange(2, 6)
    f1 = rng.choice([rng.uniform(.3, 8), 5.0, 1.0, 7.3]); f2 = rng.choice([rng.uniform(.3, 8), 5.0, 2.0, f1])
    if rng.random() < .2: e2 = e1; f2 = f1
    if rng.random() < .1: e1 = 1
    return dict(sigma2=10 ** rng.uniform(-1, 1), L_2d=L, psi=math.radians(rng.choice([45.0, 43.0, rng.uniform(5, 85)])), z_i=rng.choice([500.0, L * 10 ** rng.uniform(-3, -.5)]), L1_factor=f1, L2_factor=f2, exp1=e1, exp2=e2)
def shape(kap, L, z): return kap ** 3 / ((L ** -2 + kap ** 2) ** (7 / 3) * (1 + kap ** 2 * z ** 2))
def const(c):
    """independent quadrature: logarithmic substitution, composite Simpson"""
    L, z = c["L_2d"], c["z_i"]; t = np.linspace(math.log(1 / L) - 18, math.log(1 / z) + 25, 80001); k = np.exp(t)
    from scipy.integrate import simpson
    return c["sigma2"] / (2 * simpson(shape(k, L, z) * k, x=t))
def coefs(g, c, n, cc):
    """Fourier coefficients from the statement"""
    N1, N2 = n.shape; dx, dy = g.comp_L1 / N1, g.comp_L2 / N2
    k1 = 2 * np.pi * np.fft.fftfreq(N1, dx)[:, None]; k2 = 2 * np.pi * np.fft.fftfreq(N2, dy)[None, :]
    kk = np.sqrt(k1 ** 2 + k2 ** 2); kap = np.sqrt(2 * ((k1 * np.cos(c["psi"])) ** 2 + (k2 * np.sin(c["psi"])) ** 2))
    with np.errstate(all="ignore"): A = np.sqrt(cc * shape(kap, c["L_2d"], c["z_i"]) / (np.pi * kk ** 3)) * 2 * np.pi / np.sqrt(dx * dy)
    A[kk == 0] = 0
    h = np.fft.fft2(n)
    return 1j * k2 * A * h, -1j * k1 * A * h
