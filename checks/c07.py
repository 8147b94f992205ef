"""C07: equation-of-state formulations: energy, pressure, modulus, derivative."""
import itertools

import numpy as np

from mc.core import Result, close, digest
from mc import eosref as er

PROPERTY = 'C07'
RULE = ('every formulation x order x volume/axis x (K0, K\', K\'\', V0) of the alphabets x the whole compression grid, evaluated '
        'as arrays and as scalars; all pairs (triples in thorough) of evaluations on one object; states are the distinct (formulation, order, axis, parameter) evaluations')
ASSUMPTIONS = ['parameter values from an alphabet', 'derivatives of the code at V0 by 8th order differences']

GRID = np.concatenate([np.linspace(0.70, 0.99, 9), [1.0], np.linspace(1.01, 1.12, 4), [.97, .9995, 1. + 1e-7, 1. - 1e-7]])
WIDE = np.array([.35, .45, .55, .62, 1.18, 1.3, 1.5])
E_TAGS = {'murnaghan': ('Murnaghan', 3), 'birchmurnaghan': ('BirchMurnaghan', 3), 'vinet': ('Vinet', 3),
          'pouriertarantola': ('NaturalStrain', 3)}


def cases(tier):
    for name in er.NAMES:
        for first in range(16 * len(er.ORDERS[name])):
            yield ['seq', name, first, 3 if tier == 'thorough' else 2]
    ks = (37.3, 160.) if tier == 'quick' else (0.8, 37.3, 160., 443.)
    kps = (1.6, 2., 3.1, 4., 5.5, 9.) if tier == 'quick' else (1.2, 1.6, 2., 2.5, 3., 3.1, 4., 4.6, 5., 5.5, 6., 7., 9., 12.)
    for name in er.NAMES:
        for order in er.ORDERS[name]:
            for linear in (False, True):
                for k in ks:
                    for kp in kps:
                        for m in ((None,) if order < 4 else (-0.7, -1.02, -1.2)):      # K0*K'' / K'
                            for v0 in (74.8, 1120.5) if not linear else (4.21,):
                                yield ['pv', name, order, linear, k, kp * (3. if linear else 1.), m, v0]
    for tag in E_TAGS:
        for k in ks:
            for kp in kps:
                for v0 in (74.8, 1120.5):
                    for e0 in (-275.3, 0., 12.):
                        yield ['ev', tag, e0, k, kp, v0]


D1 = np.array([1 / 280., -4 / 105., 1 / 5., -4 / 5., 0., 4 / 5., -1 / 5., 4 / 105., -1 / 280.])


def seq(case, r):
    """one object evaluated for several settings in turn gives what a new one gives"""
    _, name, first, depth = case
    V = 74.8 * GRID
    menu = [(o, l, (k, kp * (3. if l else 1.), -1.02 * kp / k if o == 4 else 0., 74.8), fit, n)
            for o in er.ORDERS[name] for l in (False, True) for k, kp in ((37.3, 3.1), (160., 5.5)) for fit in (False, True) for n in (None, 3)]
    ref = []
    for o, l, p, fit, n in menu:
        full = er.implied(name, o, p, l)
        ref.append(er.pressure(name, o, p, V[:n], l) if fit else er.pressure(name, o, full, V[:n], l))
    for rest in itertools.product(range(len(menu)), repeat=depth - 1):
        eos = er.make(name)
        for i in (first,) + rest:
            o, l, p, fit, n = menu[i]
            q = np.array(p if fit else er.implied(name, o, p, l), dtype=float)
            r.steps += 1
            got = eos.eos(q, V[:n], order=o, linear=l, dofit=fit)
            if not close(got, ref[i], 1e-9, 1e-11 * p[0]):
                r.fail('seq:' + name, 'after %r on one object, P(V) of %r is %s, expected %s' % ([menu[j] for j in (first,) + rest], menu[i], got, ref[i]))
                return r
        r.see(name, first, rest)
    return r


def run_case(case):
    r = Result()
    if case[0] == 'seq':
        return seq(case, r)
    return (pv if case[0] == 'pv' else ev)(case, r)


def pv(case, r):
    _, name, order, linear, k, kp, m, v0 = case
    tag = ':'.join(map(str, (name, order, 'linear' if linear else 'volume')))
    p = [k, kp, 0. if m is None else m * min(kp, 6.) / k, v0]
    eos = er.make(name)
    grid = np.concatenate([GRID, WIDE]) if name != 'Tait' else GRID
    grid = grid if not linear else 1. - (1. - grid) / 3.
    V = v0 * grid
    full = er.implied(name, order, p, linear)

    def P(pars, v, **kw):
        r.steps += 1
        return eos.eos(np.array(pars, dtype=float), v, order=order, linear=linear, **kw)
    if True:
        ref = er.pressure(name, order, p, V, linear)
        got = P(p, V, dofit=True)
        if not close(got, ref, 1e-10, 1e-12 * k):
            r.fail('pressure:' + tag, '%r: P(V) from the formulation with implied values is %s, the published one gives %s' % (case, got, ref))
        got = P(full, V)
        if not close(got, ref, 1e-10, 1e-12 * k):
            r.fail('pressure-explicit:' + tag, '%r: P(V) from explicit parameters is %s, expected %s' % (case, got, ref))
        for i, v in enumerate(V):
            if not close(float(P(p, float(v), dofit=True)), ref[i], 1e-10, 1e-12 * k):
                r.fail('scalar:' + tag, '%r: scalar evaluation at V/V0=%g differs from the formula' % (case, grid[i]))
        # P=0, K, K', K'' at V0 of the code's own curve
        h = 2e-3 * min(1., 9. / full[1])
        x = np.arange(-4, 5) * h                     # in ln V
        f = np.array([float(P(p, v0 * np.exp(t), dofit=True)) for t in np.concatenate([
            np.concatenate([a + x for a in x])])]).reshape(9, 9)
        K = -f.dot(D1) / h                           # K at the nine points
        kp_n = -K.dot(D1) / h / K[4]
        if abs(f[4, 4]) > 1e-9 * k:
            r.fail('zero:' + tag, '%r: pressure at the reference volume is %g' % (case, f[4, 4]))
        if not close(K[4], full[0], 1e-8):
            r.fail('K0:' + tag, '%r: bulk modulus of the curve at V0 is %.10g, parameter is %.10g' % (case, K[4], full[0]))
        if not close(kp_n, full[1], 1e-5, 1e-6):
            r.fail('Kp:' + tag, '%r: K\' of the curve at V0 is %.8g, parameter is %.8g' % (case, kp_n, full[1]))
        # K'' from the cubic difference of K(P)
        c = np.polyfit(f[:, 4] / k, K / k, 6)
        if not close(2. * c[4], full[2] * k, 1e-3, 1e-3):
            r.fail('Kpp:' + tag, '%r: K0*K\'\' of the curve at V0 is %.6g, published value %.6g' % (case, 2. * c[4], full[2] * k))
    # the values reported for the parameters not fitted
    q = np.array(p, dtype=float)
    r.steps += 1
    out = eos.fit(V, er.pressure(name, order, p, V, linear), guess=list(full), order=order, linear=linear)
    if not (close(out.beta[:2], full[:2], 1e-5) and close(out.beta[2], full[2], 1e-3, 1e-6 / k)):
        r.fail('implied:' + tag, '%r: a fit of its own curve started at the solution reports %s, the published set is %s' % (case, out.beta, full))
    # normalised pressure: the same curve
    if name in ('BirchMurnaghan', 'NaturalStrain', 'Vinet'):
        W = v0 * np.array([1., .98, .95, .9, .85])
        PW = er.pressure(name, order, p, W, linear)
        keep = np.array(full)
        r.steps += 1
        with np.errstate(all='ignore'):
            fc, nc, fo, no, sf, sn = eos.normalize(keep, W, PW, order=order, linear=linear)
        f, den = er.strain(name, W / v0)
        if not close(fc, f, 1e-10, 1e-13) or not close(fo, f[1:], 1e-10):
            r.fail('strain:' + tag, '%r: strains %s / %s, expected %s' % (case, fc, fo, f))
        if not close(nc[1:], PW[1:] / den[1:], 1e-9) or not close(no, PW[1:] / den[1:], 1e-9):
            r.fail('normalized:' + tag, '%r: normalised pressures %s (EoS) %s (data), expected %s' % (case, nc, no, PW[1:] / den[1:]))
        if not np.array_equal(keep, full):
            r.fail('normalize-mutates:' + tag, '%r: normalize() changed the parameters given to %s' % (case, keep))
    r.see(case)
    return r


def ev(case, r):
    _, tag, e0, k, kp, v0 = case
    from quantas.qha.utils.ev_eos import EnergyEOS
    e = EnergyEOS()
    name, order = E_TAGS[tag]
    V = v0 * np.concatenate([GRID, WIDE])
    E = getattr(e, tag)
    ref = er.pressure(name, order, (k, kp, 0., v0), V)
    h = 2e-3
    x = np.arange(-4, 5) * h
    # -dE/dV, summation error removed by working relative to E0 = 0
    d = np.array([[float(E(v * np.exp(t), 0., k, kp, v0)) for t in x] for v in V])
    r.steps += d.size
    P = -d.dot(D1) / h / V
    if not close(P, ref, 1e-7, 1e-9 * k):
        r.fail('energy:' + tag, '%r: -dE/dV is %s, the pressure of the formulation is %s' % (case, P, ref))
    got = np.asarray(E(V, e0, k, kp, v0), dtype=float)
    sc = k * v0
    if not close(got - e0, d[:, 4], 1e-9, 1e-10 * sc) or not close(float(E(v0, e0, k, kp, v0)), e0, 1e-10, 1e-10 * sc):
        r.fail('energy0:' + tag, '%r: energy at the reference volume is not E0, or array and scalar evaluation differ' % (case,))
    pars = np.array([e0, k, kp, v0])
    got = e.pressure(tag, pars, V)
    r.steps += 2
    if not close(got, ref, 1e-9, 1e-12 * k):
        r.fail('pressure-of-energy:' + tag, '%r: pressures of the energy fit are %s, -dE/dV is %s' % (case, got, ref))
    if not np.array_equal(pars, [e0, k, kp, v0]):
        r.fail('pressure-mutates:' + tag, '%r: the parameters given were changed to %s' % (case, pars))
    r.see(case)
    return r
