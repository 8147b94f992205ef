"""Boring reference models, written independently of the code under test."""
import math
import numpy as np
from scipy import constants as cs

H, KB, NA = cs.h, cs.k, cs.N_A


def osc(T, nu):
    """One harmonic oscillator (nu in Hz): zpe, Uth, Fvib [kJ/mol], S, Cv [J/mol/K]."""
    if nu <= 0.:
        return 0., 0., 0., 0., 0.
    hn = H * nu
    zpe = NA * hn / 2000.
    if T == 0.:
        return zpe, 0., zpe, 0., 0.
    x = hn / (KB * T)
    if x > 700.:
        return zpe, 0., zpe, 0., 0.
    em = math.expm1(x)
    uth = NA * hn / em / 1000.
    logterm = math.log(-math.expm1(-x))          # ln(1 - e^-x)
    s = NA * KB * (x / em - logterm)
    f = zpe + NA * KB * T * logterm / 1000.
    cv = NA * KB * (0.5 * x / math.sinh(0.5 * x)) ** 2
    return zpe, uth, f, s, cv


NAMES = ('zpe', 'uth', 'f', 's', 'cv')


def crystal(T, freq, weights):
    """T (nt,), freq (nq, nf, nv) in Hz, weights (nq,) -> dict of (nt, nv)."""
    nq, nf, nv = freq.shape
    out = {k: np.zeros((len(T), nv)) for k in NAMES}
    for i, t in enumerate(T):
        for v in range(nv):
            acc = [0.] * 5
            for q in range(nq):
                for b in range(nf):
                    o = osc(float(t), float(freq[q, b, v]))
                    for n in range(5):
                        acc[n] += o[n] * float(weights[q])
            for n, k in enumerate(NAMES):
                out[k][i, v] = acc[n]
    return out
