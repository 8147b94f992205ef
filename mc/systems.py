"""Synthetic solids with an independent, analytic description, and writers of
the input files of quantas.  All internal quantities are SI, per cell."""
import math

import numpy as np
from scipy import constants as cs

from . import ref

E_SI = {'Ha': cs.value('Hartree energy'), 'eV': cs.e, 'Ry': cs.value('Rydberg constant times hc in J')}
L_SI = {'A': 1e-10, 'bohr': cs.value('Bohr radius')}
F_SI = {'cm-1': 100. * cs.c, 'Hz': 1., 'THz': 1e12}
P_SI = {'GPa': 1e9, 'kbar': 1e8}
KJ = 1000. / cs.Avogadro           # J per cell of 1 kJ/mol


class Solid(object):
    """V0 [A^3], K0 [GPa], kp, static Birch-Murnaghan (or polynomial) energy and
    frequencies nu_i(V) = nu_i (V0/V)^gamma_i [THz]."""

    def __init__(self, V0=75., K0=160., kp=4., E0=-275., nus=None, gammas=None, weights=None, eos='BM'):
        self.V0, self.K0, self.kp, self.eos = V0 * 1e-30, K0 * 1e9, kp, eos
        self.E0 = E0 * E_SI['Ha']
        self.nus = np.array(nus if nus is not None else [[0., 0., 0., 9., 12., 14.]]) * 1e12
        self.gammas = np.broadcast_to(np.array(1.5 if gammas is None else gammas, dtype=float), self.nus.shape)
        self.weights = np.array(weights if weights is not None else [1.] * len(self.nus), dtype=float)

    def static(self, V):
        V = np.asarray(V, dtype=float)
        if self.eos == 'M':
            k = self.kp
            return self.E0 + self.K0 * V / k * ((self.V0 / V) ** k / (k - 1.) + 1.) - self.V0 * self.K0 / (k - 1.)
        if self.eos == 'V':
            x = (V / self.V0) ** (1. / 3.)
            e = 1.5 * (self.kp - 1.)
            return self.E0 + 9. * self.K0 * self.V0 / e ** 2 * (1. - (1. - e * (1. - x)) * np.exp(e * (1. - x)))
        if self.eos == 'PT':
            l = np.log(self.V0 / V)
            return self.E0 + self.K0 * self.V0 * (l ** 2 / 2. + (self.kp - 2.) * l ** 3 / 6.)
        f = ((self.V0 / V) ** (2. / 3.) - 1.) / 2.
        return self.E0 + 4.5 * self.K0 * self.V0 * f ** 2 * (1. + (self.kp - 4.) * f)

    def freq(self, V):
        """(nq, nf, nV) Hz"""
        V = np.atleast_1d(V)
        return self.nus[:, :, None] * (self.V0 / V[None, None, :]) ** self.gammas[:, :, None]

    def harmonic(self, T, V):
        """dict of (nT, nV): zpe, uth, f [J/cell], s, cv [J/K/cell], plus u0"""
        w = self.weights / self.weights.sum()
        r = ref.crystal(np.atleast_1d(T), self.freq(V), w)
        out = {k: r[k] * KJ for k in ('zpe', 'uth', 'f')}
        out.update({k: r[k] * KJ / 1000. for k in ('s', 'cv')})
        out['u0'] = self.static(np.atleast_1d(V))
        return out

    def F(self, T, V):
        h = self.harmonic([T], V)
        return h['u0'] + h['f'][0]

    # ---- exact quasi-harmonic state, by high-order differences on F
    def pressure(self, T, V, d=2e-4):
        """-dF/dV by a 6th order central difference"""
        h = V * d
        pts = V + h * np.array([-3, -2, -1, 1, 2, 3])
        f = self.F(T, pts) - self.F(T, np.array([V]))[0]
        return -np.dot([-1., 9., -45., 45., -9., 1.], f) / (60. * h)

    def bulk(self, T, V, d=1e-3):
        h = V * d
        p = [self.pressure(T, V + k * h) for k in (-2, -1, 1, 2)]
        return -V * np.dot([1., -8., 8., -1.], p) / (12. * h)

    def volume(self, T, P):
        from scipy.optimize import brentq
        return brentq(lambda v: (self.pressure(T, v * self.V0) - P) / 1e9, 0.6, 1.35, xtol=1e-13) * self.V0


def ncells(n, natom):
    return n // (3 * natom)


def yaml_text(s, volumes, eunit='Ha', vunit='A', funit='cm-1', natom=None, job='Test', order=None, energy=None,
              supercell=((1, 0, 0), (0, 1, 0), (0, 0, 1)), freq=None, weights=None, fmt='%.17g'):
    """volumes [m^3]"""
    volumes = np.asarray(volumes)
    fr = s.freq(volumes) if freq is None else freq
    e = s.static(volumes) if energy is None else energy
    natom = fr.shape[1] // 3 if natom is None else natom
    w = s.weights if weights is None else weights
    L = []
    if job is not None:
        L.append('job: ' + job)
    L.append('natom: %d' % natom)
    L.append('supercell:')
    for row in supercell:
        L.append('- [ %s ]' % ', '.join(str(x) for x in row))
    L.append('qpoints: %d' % fr.shape[0])
    L.append('volume: [ %s ]' % ', '.join(flt(fmt % (v / L_SI[vunit] ** 3)) for v in volumes))
    L.append('energy: [ %s ]' % ', '.join(flt(fmt % (x / E_SI[eunit])) for x in e))
    L.append('phonon:')
    for q in range(fr.shape[0]):
        L.append('- q-position: [ %.7f, %.7f, %.7f ]' % (q / float(fr.shape[0]), 0., 0.))
        L.append('  weight: %s' % ('%d' % w[q] if w[q] == int(w[q]) else repr(float(w[q]))))
        L.append('  band:')
        for b in range(fr.shape[1]):
            L.append('  - # %d' % (b + 1))
            L.append('    frequency: [ %s ]' % ', '.join(flt(fmt % (x / F_SI[funit])) for x in fr[q, b]))
    return '\n'.join(L) + '\n'


def flt(t):
    """YAML 1.1 floats need a dot in the mantissa and a sign in the exponent"""
    if 'e' in t:
        m, e = t.split('e')
        if '.' not in m:
            m += '.0'
        if e[0] not in '+-':
            e = '+' + e
        return m + 'e' + e
    return t if '.' in t or 'n' in t else t + '.0'


def volumes(s, n=7, lo=0.90, hi=1.06):
    return s.V0 * np.linspace(lo, hi, n)
