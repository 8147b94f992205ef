"""C23 acoustic contributions of the Kieffer model against the same integrals in
the angle variable (smooth integrand, Gauss-Legendre), and the identities among
them."""
import itertools

import numpy as np
from scipy.constants import Avogadro, Boltzmann, Planck

from mc.core import Result

PROPERTY = 'C23'
RULE = 'limit frequencies x temperatures (all pairs of the alphabets, sets of one, two and three branches in every order, list/tuple/array arguments, evaluation histories); non-trivial: value above 1e-6 J/mol'
ASSUMPTIONS = ['values to 1e-6 relative or 1e-7 J/(mol K)', 'free energy is the thermal one (no zero-point term), as the module documents no other']
R = Avogadro * Boltzmann
_t, _w = np.polynomial.legendre.leggauss(3000)


def model(freqs, T):
    """F, Cv, S of the branches [J/mol, J/mol/K]"""
    out = np.zeros(3)
    if T == 0.:
        return out
    for f in freqs:
        xi = Planck * f / (Boltzmann * T)
        top = np.pi / 2 if xi <= 60. else np.arcsin(60. / xi)
        th, w = (_t + 1) * top / 2, _w * top / 2
        x = xi * np.sin(th)
        g = w * th ** 2 * 3 * R * (2 / np.pi) ** 3
        lf = np.log(-np.expm1(-x))
        out += (g * lf).sum() * T, (g * x * x * np.exp(-x) / np.expm1(-x) ** 2).sum(), (g * (x / np.expm1(x) - lf)).sum()
    return out


FREQ = [3e10, 1e11, 4e11, 1e12, 2.5e12, 5e12, 9e12, 1.5e13, 3e13]
TEMP = [0., 0.05, 0.3, 1., 3., 10., 30., 77., 150., 298.15, 600., 1000., 3000., 10000.]


def near(a, b, T):
    return np.isfinite(a) and abs(a - b) <= 1e-6 * abs(b) + 1e-7 * T


def values(k, T):
    return np.array([float(k.helmholtz(T)), float(k.heat_capacity(T)), float(k.entropy(T))])


NAMES = ['free energy', 'heat capacity', 'entropy']


def compare(r, key, k, freqs, T):
    got, want = values(k, T), model(freqs, T)
    r.steps += 3
    for n, a, b, s in zip(NAMES, got, want, (max(T, 1.), 1., 1.)):
        if not near(a, b, s):
            r.fail(key + ':' + n.replace(' ', '-'), '%s of %r Hz at %r K is %r, integral %r' % (n, freqs, T, a, b))
    if got[1] > 1e-6:
        r.see(tuple(freqs), T)
    return got


def cases(tier):
    th = tier == 'thorough'
    fr = FREQ + ([6e10, 2e11, 7e11, 1.7e12, 3.5e12, 7e12, 1.2e13, 2e13, 5e13] if th else [])
    te = TEMP + ([.1, .7, 2., 6., 18., 50., 110., 220., 400., 800., 1800., 5000.] if th else [])
    for f in fr:
        yield ['single', f, te]
        yield ['derivative', f, te]
    for a in itertools.combinations_with_replacement(FREQ[1::2], 2):
        yield ['set', list(a), TEMP[::3]]
    for a in itertools.product(FREQ[1::3] if not th else FREQ[1::2], repeat=3):
        yield ['set', list(a), TEMP[1::4]]
    for k in range(4):
        yield ['history', k]


def run_case(case):
    from quantas.qha.utils.kieffer import Kieffer
    r = Result()
    with np.errstate(all='ignore'):
        if case[0] == 'single':
            f = case[1]
            last = None
            for T in case[2]:
                got = compare(r, 'single', Kieffer(np.array([f])), [f], T)
                if T == 0. and np.any(got != 0.):
                    r.fail('zero', '%r Hz at 0 K: %r' % (f, got))
                if last is not None and T > 0.:
                    x = Planck * f / Boltzmann
                    if got[1] > R * (1 + 1e-6) or got[1] < -1e-7 or got[2] < -1e-7 or got[0] > 1e-7 * T:
                        r.fail('sign', '%r Hz at %r K: F %r Cv %r S %r' % ((f, T) + tuple(got)))
                    if T > 50 * x and abs(got[1] - R) > 1e-3 * R:
                        r.fail('classical', 'heat capacity of one branch (%r Hz) at %r K is %r, not R' % (f, T, got[1]))
                last = got
        elif case[0] == 'derivative':
            f = case[1]
            k = Kieffer(np.array([f]))
            for T in case[2]:
                if T < 1.:
                    continue
                h = T * 2e-3
                F = [float(k.helmholtz(T + i * h)) for i in (-2, -1, 1, 2)]
                S = [float(k.entropy(T + i * h)) for i in (-2, -1, 1, 2)]
                d = lambda y: (y[0] - 8 * y[1] + 8 * y[2] - y[3]) / (12 * h)
                got = values(k, T)
                r.steps += 11
                if abs(-d(F) - got[2]) > 1e-5 * abs(got[2]) + 1e-5:
                    r.fail('derivative:F', '%r Hz, %r K: -dF/dT = %r, S = %r' % (f, T, -d(F), got[2]))
                if abs(T * d(S) - got[1]) > 1e-5 * abs(got[1]) + 1e-5:
                    r.fail('derivative:S', '%r Hz, %r K: T dS/dT = %r, Cv = %r' % (f, T, T * d(S), got[1]))
                r.see('d', f, T)
        elif case[0] == 'set':
            fs = case[1]
            for T in case[2]:
                got = compare(r, 'set', Kieffer(np.array(fs)), fs, T)
                for arg in (list(fs), tuple(fs), np.array(fs)[::-1].copy(), np.array(fs + fs)[::2].copy() if len(fs) == 1 else np.array([[a, 0.] for a in fs])[:, 0]):
                    v = values(Kieffer(arg), T)
                    r.steps += 3
                    if not np.allclose(v, got, rtol=1e-9, atol=1e-12):
                        r.fail('order', '%r: %r, other order or container %r' % (fs, got, v))
        else:
            sets = [[1e12], [1e12, 3e12], [5e12, 5e12, 8e12], [4e11, 9e12]]
            a = np.array(sets[case[1]])
            keep = a.copy()
            k = Kieffer(a)
            for order in itertools.permutations(('helmholtz', 'heat_capacity', 'entropy')):
                for T in (300., 0., 20., 300.):
                    want = dict(zip(('helmholtz', 'heat_capacity', 'entropy'), model(sets[case[1]], T)))
                    for n in order:
                        v = float(getattr(k, n)(T))
                        r.steps += 1
                        if not near(v, want[n], max(T, 1.)):
                            r.fail('history:' + n, '%s(%r) after others is %r, not %r' % (n, T, v, want[n]))
                r.see(case[1], order)
            for b in sets:                       # other frequencies for the same object
                k.acofreq = np.array(b)
                compare(r, 'reassigned', k, b, 300.)
                if not np.allclose(k.acofreq, b):
                    r.fail('frequencies', 'acofreq is %r, given %r' % (k.acofreq, b))
            if not np.array_equal(a, keep):
                r.fail('argument', 'the given frequencies were changed')
    return r
