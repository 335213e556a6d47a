" generators and reference computations shared by the scenarios "
import numpy as np


def spec_coeff(x, rate, freq, L, sh, Nw, win):
    " windowed normalised sums, written from the definition "
    x = np.asarray(x, float)
    k = np.arange(L)
    e = np.exp(-2j * np.pi * freq / rate * k) * 2 / L
    if win is not None:
        e = e * win
    return np.array([np.sum(x[w * sh:w * sh + L] * e) for w in range(Nw)])
