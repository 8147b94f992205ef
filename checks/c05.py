"""C05: quasi-harmonic runs through the real CLI against an independent model
of the documented schemes and against the exact state of the solid."""
import itertools

import numpy as np
from numpy.polynomial import Polynomial
from scipy import constants as cs
from scipy.optimize import brentq, least_squares

from mc import cli, ref
from mc import systems as sy
from mc.core import Result, close, scratch

PROPERTY = 'C05'
RULE = ('solid x scheme x minimisation x EoS x polynomial degrees x units x (T, P) grid through the CLI; every dataset at every '
        '(T, P) is compared with the model; states are the distinct (T, P) points of distinct runs')
ASSUMPTIONS = ['solids with analytic energies and volume power-law frequencies', 'tolerances are fitting/rounding errors measured on the alphabet']


def solids():
    S = sy.Solid
    return {
        'mgo': (S(E0=-275., nus=[[0., 0., 0., 9., 12., 14.]], gammas=1.5), 7, .90, 1.06),
        'twoq': (S(V0=113., K0=75., kp=4.8, E0=-30., nus=[[0., 0., 0., 5., 8., 10.], [2., 3., 3.5, 6., 7., 9.]], weights=[1, 3],
                   gammas=[[1., 1., 1., 1.2, 1.5, .7], [1.4, 1.2, 1.8, 1., .5, 1.1]]), 9, .86, 1.08),
        'soft': (S(V0=48., K0=60., kp=5.2, E0=-2., nus=[[4., 5., 6.]], gammas=1.1, eos='V'), 9, .84, 1.12),
        'big': (S(V0=1060., K0=95., kp=4.2, E0=-1500., nus=[[0., 0., 0.] + [6. + .5 * i for i in range(12)]], gammas=1.2, weights=[1],
                  eos='PT'), 8, .89, 1.06),
    }


GRIDS = {'short': ((0., 900., 300.), (0., 10., 5.)), 'long': ((0., 980., 20.), (0., 6., 3.)), 'long50': ((10., 500., 10.), (-1., 1., 1.)),
         'one': ((298.15, 298.15, 1.), (0., 0., 1.)), '49': ((0., 960., 20.), (2., 2., 1.)), 'cold': ((0., 0., 1.), (0., 3., 1.))}
UNITS = [('Ha', 'A', 'cm-1', 'K', 'GPa'), ('eV', 'A', 'THz', 'K', 'GPa'), ('Ry', 'bohr', 'Hz', 'C', 'kbar')]


def cases(tier):
    deep = tier == 'thorough'
    units = UNITS if not deep else list(itertools.product(('Ha', 'eV', 'Ry'), ('A', 'bohr'), ('cm-1', 'THz'), ('K', 'C'), ('GPa', 'kbar')))
    for name in solids():
        for scheme in ('td', 'freq'):
            for mini in ('poly', 'M', 'BM', 'PT', 'V'):
                if mini == 'M' and name == 'soft':
                    pass
                for edeg in (2, 3, 4, 5) if mini == 'poly' else (3, 4):
                    if mini != 'poly' and edeg == 4 and not deep:
                        continue
                    for fdeg in ((2, 3, 4) if scheme == 'freq' and (deep or mini == 'poly' and edeg == 4) else (3,)):
                        for g in ('short', 'long'):
                            if g == 'long' and not deep and (edeg, fdeg) not in ((4, 3), (3, 3)):
                                continue
                            if g == 'long' and not deep and mini in ('M', 'PT', 'V') and name != 'mgo':
                                continue
                            yield [name, scheme, mini, edeg, fdeg, 0, g]
            for mini in ('poly', 'BM'):
                for u in range(1, len(UNITS)):
                    for g in ('short', 'long') if mini == 'poly' or deep else ('short',):
                        yield [name, scheme, mini, 4, 3, u, g]
                for g in ('long50', 'one', '49', 'cold'):
                    yield [name, scheme, mini, 4, 3, 0, g]
    for scheme in ('td', 'freq'):
        for edeg in (3, 4, 5):
            for pat in range(3):
                yield ['noise', scheme, edeg, pat]
        for mini in ('poly', 'eos'):
            yield ['nomin', scheme, mini]
        for name in solids():
            for mini in ('poly', 'M', 'BM', 'PT', 'V'):
                for edeg in (2, 3, 4, 5) if mini == 'poly' else (3,):
                    for P in FAR:
                        yield ['far', name, scheme, mini, edeg, P]


class Fit(object):
    """independent polynomial fits (centred variable) of rows of Y(V)"""

    def __init__(self, V, Y, deg):
        self.rows = [Polynomial.fit(V, y, deg, domain=[V.min(), V.max()]) for y in np.atleast_2d(Y)]

    def __call__(self, i, V):
        return self.rows[i](V)


def static_form(eos, s):
    """E(V; E0, K0, kp, V0) of the named formulation"""
    t = sy.Solid.__new__(sy.Solid)

    def f(p, V):
        t.E0, t.K0, t.kp, t.V0, t.eos = p[0], p[1], p[2], p[3], eos
        return t.static(V)
    return f


def eosfit(s, eos, V, F, v, k):
    """least-squares parameters (V, K, K') of F(V)"""
    f = static_form(eos, s)
    sc = k * v
    f0 = F[np.argmin(abs(V - v))]

    def res(x):
        return (f((f0 + x[0] * sc * 1e-3, x[1] * k, x[2] * 4., x[3] * v), V) - F) / sc * 1e3
    out = least_squares(res, [0., 1., s.kp / 4., 1.], xtol=1e-15, ftol=1e-15, gtol=1e-15, method='lm', x_scale=[1e-3, .01, .1, 1e-3])
    x = out.x
    return x[3] * v, x[1] * k, x[2] * 4.


def polymin(fit, P, V, near):
    d = fit.deriv()
    r = (d + P).roots()
    r = r[abs(r.imag) < 1e-9].real
    r = r[fit.deriv(2)(r) > 0]
    return r[np.argmin(abs(r - near))]


def fd(f, x, h, n):
    """derivatives of a smooth function by 8th-order central differences"""
    y = np.array([f(x + k * h) for k in range(-4, 5)])
    if n == 1:
        c = np.array([1 / 280., -4 / 105., 1 / 5., -4 / 5., 0., 4 / 5., -1 / 5., 4 / 105., -1 / 280.])
    elif n == 2:
        c = np.array([-1 / 560., 8 / 315., -1 / 5., 8 / 5., -205 / 72., 8 / 5., -1 / 5., 8 / 315., -1 / 560.])
    else:
        c = np.array([-7 / 240., 3 / 10., -169 / 120., 61 / 30., 0., -61 / 30., 169 / 120., -3 / 10., 7 / 240.])
    return c.dot(y) / h ** n


def model(s, V, T, P, scheme, mini, edeg, fdeg, energy=None):
    """{name: (nT, nP)} in SI per cell"""
    h = s.harmonic(T, V)
    if energy is not None:
        h['u0'] = energy
    u0 = h['u0'][None, :]
    F = u0 + h['f']
    fits = {k: Fit(V, y, edeg) for k, y in (('zpe', h['zpe']), ('uth', h['uth']), ('s', h['s']), ('cv', h['cv']), ('f', h['f']),
                                            ('U', u0 + h['zpe'] + h['uth']), ('F', F), ('u0', h['u0']))}
    nu = s.freq(V)
    ff = [[Polynomial.fit(V, nu[q, b], fdeg, domain=[V.min(), V.max()]) for b in range(nu.shape[1])] for q in range(nu.shape[0])]
    w = s.weights / s.weights.sum()

    def phon(t, v):
        fr = np.array([[[ff[q][b](v)] if nu[q, b].max() > 0 else [0.] for b in range(nu.shape[1])] for q in range(nu.shape[0])])
        r = ref.crystal(np.array([t]), fr, w)
        return {k: float(r[k][0, 0]) * sy.KJ * (1. if k in ('zpe', 'uth', 'f') else 1e-3) for k in ('zpe', 'uth', 's', 'cv', 'f')}
    out = {k: np.zeros((len(T), len(P))) for k in ('V', 'Uzp', 'Uth', 'Utot', 'S', 'Cv', 'Fvib', 'F', 'KT', 'Kp')}
    for i, t in enumerate(T):
        for j, p in enumerate(P):
            v0 = s.volume(t, p)
            if mini == 'poly':
                v = polymin(fits['F'].rows[i], p, V, v0)
                if scheme == 'td':
                    f2, f3 = fits['F'].rows[i].deriv(2)(v), fits['F'].rows[i].deriv(3)(v)
                else:
                    def tot(x):
                        return fits['u0'](0, x) + phon(t, x)['f']
                    f2, f3 = fd(tot, v, v * 4e-3, 2), fd(tot, v, v * 8e-3, 3)
                k, kp = v * f2, -(f2 + v * f3) / f2
            else:
                v, k, kp = eosfit(s, mini, V, F[i] + p * V, v0, s.bulk(t, v0))
            if scheme == 'td':
                o = dict(Uzp=fits['zpe'](0, v), Uth=fits['uth'](i, v), S=fits['s'](i, v), Cv=fits['cv'](i, v), Fvib=fits['f'](i, v),
                         Utot=fits['U'](i, v), F=fits['F'](i, v))
            else:
                g = phon(t, v)
                u = fits['u0'](0, v)
                o = dict(Uzp=g['zpe'], Uth=g['uth'], S=g['s'], Cv=g['cv'], Fvib=g['f'], Utot=u + g['zpe'] + g['uth'], F=u + g['f'])
            o.update(V=v, KT=k, Kp=kp)
            for q in o:
                out[q][i, j] = o[q]
    return out


def arange(lo, hi, st):
    return lo + st * np.arange(int(np.floor((hi - lo) / st + 1e-6)) + 1)


def execute(s, V, args, units, energy=None):
    with scratch():
        with open('x.yaml', 'w') as f:
            f.write(sy.yaml_text(s, V, units[0], units[1], units[2], job='qha', energy=energy))
        run = cli.quantas(['qha', 'x.yaml'] + args)
        import os
        data = cli.h5('x_QHA.hdf5')[0] if os.path.exists('x_QHA.hdf5') else None
    return run, data


DEBUG = {}


def run_case(case):
    r = Result()
    if case[0] == 'noise':
        return noise(case, r)
    if case[0] == 'nomin':
        return nomin(case, r)
    if case[0] == 'far':
        return far(case, r)
    name, scheme, mini, edeg, fdeg, u, g = case
    s, n, lo, hi = solids()[name]
    V = sy.volumes(s, n, lo, hi)
    units = UNITS[u]
    judge(r, case, s, V, scheme, mini, edeg, fdeg, units, GRIDS[g])
    return r


def judge(r, case, s, V, scheme, mini, edeg, fdeg, units, grid, energy=None):
    e, vu, fu, tu, pu = units
    E, L3, PU = sy.E_SI[e], sy.L_SI[vu] ** 3, sy.P_SI[pu]
    T = arange(*grid[0])
    P = arange(*[x * 1e9 for x in grid[1]])
    sh = 273.15 if tu == 'C' else 0.
    ps = 1e9 / PU
    args = ['-s', scheme, '-m', 'poly' if mini == 'poly' else 'eos', '--edeg', edeg, '--fdeg', fdeg,
            '--eunit', e, '--vunit', vu, '--funit', fu, '--tunit', tu, '--punit', pu,
            '-T', repr(grid[0][0] - sh), repr(grid[0][1] - sh), repr(grid[0][2]),
            '-P', repr(grid[1][0] * ps), repr(grid[1][1] * ps), repr(grid[1][2] * ps)]
    if mini != 'poly':
        args += ['--eos', mini]
    run, data = execute(s, V, args, units, energy)
    if run.crashed or run.error or data is None:
        r.fail('run:%s:%s' % (scheme, mini), '%r failed: %s\n%s' % (case, run.output[-400:], run.why()))
        return
    m = model(s, V, T, P, scheme, mini, edeg, fdeg, energy)
    d = {k: x[0] for k, x in data.items()}
    r.steps += len(T) * len(P)
    tag = '%s:%s' % (scheme, 'poly' if mini == 'poly' else 'eos')

    def cmp(key, got, want, rtol, atol=0.):
        if got.shape != want.shape:
            r.fail('shape:%s' % key, '%r: %s has shape %r, expected %r' % (case, key, got.shape, want.shape))
            return
        if DEBUG.get('on'):
            with np.errstate(all='ignore'):
                err = np.nanmax(np.abs(got - want) / (np.abs(want) + atol / rtol))
            DEBUG.setdefault(key + ':' + tag, []).append((err / 1., case))
        if not close(got, want, rtol, atol):
            k = np.unravel_index(np.nanargmax(np.abs(got - want) if not np.isnan(got).any() else np.isnan(got) * 1.), got.shape)
            r.fail('%s:%s' % (key, tag), '%r: %s at index %r (T %s) is %.10g, expected %.10g' % (
                case, key, k, T[k[0]] if got.ndim else '', got[k], want[k]))
    cmp('T', d['T'], T - sh, 1e-9, 1e-9)
    cmp('P', d['P'], P / PU, 1e-9, 1e-9)
    sc = s.K0 * s.V0                                   # energy scale of the minimum
    big = max(abs(m['F']).max(), sc)
    ae = 1e-10 * big / E
    cmp('VT', d['VT'] * L3, m['V'], 2e-6 if mini != 'poly' else 1e-8)
    for k in ('Uzp', 'Uth', 'Fvib'):
        cmp(k, d[k], m[k] / E, 1e-5, ae)
    cmp('Utot', d['Utot'], m['Utot'] / E, 0., 1e-9 * big / E + 3e-6 * sc / E)
    cmp('F', d['F'], m['F'] / E, 0., 1e-9 * big / E + 3e-8 * sc / E)
    for k in ('S', 'Cv'):
        cmp(k, d[k], m[k] * 1000. / E, 1e-5, 1e-8 * m[k].max() * 1000. / E + 1e-12)
    cmp('KT', d['KT'] * PU, m['KT'], 1e-4 if mini == 'poly' else 1e-4)
    if edeg > 2 or mini != 'poly':
        cmp('Kp', d['Kp'], m['Kp'], 1e-2 if mini == 'poly' else 1e-3)
    # ---- identities on the reported numbers themselves
    Vs, K = d['VT'] * L3, d['KT'] * PU
    PV = (P[None, :] * Vs) / E
    cmp('H', d['H'], d['Utot'] + PV, 1e-12, 1e-12 * big / E)
    cmp('G', d['G'], d['F'] + PV, 1e-12, 1e-12 * big / E)
    cmp('F=U-TS', d['F'], d['Utot'] - T[:, None] * d['S'] / 1000., 0., 2e-10 * big / E)
    zero = np.zeros_like(Vs)
    if len(T) < 50:
        for k in ('alphaV', 'Cp', 'Cp-Cv', 'gruneisen'):
            cmp(k, d[k], zero, 1e-9)
        cmp('KS', d['KS'], d['KT'], 1e-12)
    else:
        dV = np.vstack([np.diff(Vs, axis=0), Vs[-1:] - Vs[-2:-1]]) / np.diff(T)[0]
        al = dV / Vs
        cmp('alphaV', d['alphaV'], al, 1e-5, 1e-12)
        al = d['alphaV']
        corr = al ** 2 * K * Vs * T[:, None]                      # J/K per cell
        cmp('Cp-Cv', d['Cp-Cv'], corr * 1000. / E, 1e-8, 1e-14)
        cmp('Cp', d['Cp'], d['Cv'] + d['Cp-Cv'], 1e-12, 1e-14)
        cv = d['Cv'] * E / 1000.
        ok = cv > cv.max() * 1e-4
        with np.errstate(all='ignore'):
            ks = np.where(cv > 0, K * (1. + al ** 2 * K * Vs * T[:, None] / np.where(cv > 0, cv, 1.)), K)
            ga = np.where(cv > 0, al * K * Vs / np.where(cv > 0, cv, 1.), 0.)
        cmp('KS', np.where(ok, d['KS'] * PU, 0), np.where(ok, ks, 0), 1e-7)
        cmp('gruneisen', np.where(ok, d['gruneisen'], 0), np.where(ok, ga, 0), 1e-7, 1e-9)
        if not (np.isfinite(d['KS']).all() and np.isfinite(d['gruneisen']).all()):
            r.fail('finite:' + tag, '%r: KS or gruneisen is not finite' % (case,))
    # ---- the physics: exact state of the solid, within fitting accuracy
    if energy is None and edeg >= 3:
        tol = {3: 8e-3, 4: 1e-3, 5: 5e-4}[edeg] if mini == 'poly' else 1e-3
        if scheme == 'freq' and fdeg == 2 or mini == 'M':
            tol = max(tol, 3e-3)
        ex = np.array([[s.volume(t, p) for p in P] for t in T[::max(1, len(T) // 4)]])
        inside = (ex > V.min() * 1.01) & (ex < V.max() * .99)
        if not close(np.where(inside, Vs[::max(1, len(T) // 4)], 0), np.where(inside, ex, 0), tol):
            r.fail('exact:' + tag, '%r: V(T,P) %s, the solid has %s' % (case, Vs[::max(1, len(T) // 4)], ex))
    for i in range(len(T)):
        for j in range(len(P)):
            r.see(case, i, j)


FAR = (-400., -100., -40., 60., 150., 400., 900., 4000., 1e5)


def far(case, r):
    """pressures far from the sampled ones: an error, or a state that exists"""
    _, name, scheme, mini, edeg, P = case
    s, n, lo, hi = solids()[name]
    V = sy.volumes(s, n, lo, hi)
    opt = ['-m', 'poly', '--edeg', str(edeg)] if mini == 'poly' else ['-m', 'eos', '--eos', mini]
    run, data = execute(s, V, ['-s', scheme] + opt + ['-T', '0', '600', '300', '-P', repr(P), repr(P), '1'], UNITS[0])
    r.steps += 1
    tag = '%s:%s' % (scheme, mini)
    if run.crashed:
        r.fail('far-crash:' + tag, '%r: traceback\n%s' % (case, run.why()))
    elif (data is None) != run.error:
        r.fail('far-end:' + tag, '%r: error %r, results %r' % (case, run.error, data is not None))
    elif data is not None:
        v, k = data['VT'][0], data['KT'][0]
        if not np.all(np.isfinite(v)) or not np.all(v > 0.):
            r.fail('far-volume:' + tag, '%r: volumes %s' % (case, v.ravel()))
        elif not np.all(np.isfinite(k)) or not np.all(k > 0.):
            r.fail('far-modulus:' + tag, '%r: bulk moduli %s' % (case, k.ravel()))
    r.see(case, None if data is None else data['VT'][0].tolist())
    return r


NOISE = ([1, 1, -1, -1, 1, 1], [1, -1, 1, 1, -1, 1], [-1, 1, 1, -1, -1, 1])


def noise(case, r):
    """numerical noise on the energies makes spurious stationary points"""
    _, scheme, edeg, pat = case
    s = solids()['mgo'][0]
    V = sy.volumes(s, 6, .98, 1.03)
    e = s.static(V) + 1e-6 * sy.E_SI['Ha'] * np.array(NOISE[pat])
    judge(r, case, s, V, scheme, 'poly', edeg, 3, UNITS[0], ((0., 300., 100.), (0., 1., .5)), e)
    return r


def nomin(case, r):
    """data without any minimum: refused, no values"""
    _, scheme, mini = case
    s = solids()['mgo'][0]
    V = sy.volumes(s, 6, .9, 1.0)
    x = V / s.V0 - .95
    if mini == 'poly':
        e = s.E0 - s.K0 * s.V0 * x ** 2 * 2.       # concave
    else:
        e = s.E0 - s.K0 * s.V0 * x ** 2 * 2.
    run, data = execute(s, V, ['-s', scheme, '-m', mini, '--edeg', '2' if mini == 'poly' else '3'], UNITS[0], e)
    r.steps += 1
    if run.crashed:
        r.fail('nomin-crash:%s:%s' % (scheme, mini), '%r: traceback\n%s' % (case, run.why()))
    elif mini == 'poly' and (data is not None or not run.error):
        r.fail('nomin:%s:%s' % (scheme, mini), '%r: a free energy without minimum gave results %s' % (case, None if data is None else data['VT'][0]))
    r.see(case)
    return r
