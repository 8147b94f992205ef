"""C02 harmonic statistical mechanics: all (T, nu, weight) single oscillators and
all small band-structure shapes against the textbook formulas."""
import itertools
import math
import numpy as np
from scipy import constants as cs
from mc.core import Result, close
from mc import ref

PROPERTY = 'C02'
RULE = ('single oscillators: T x frequency x weight alphabets in full; structures: every shape '
        '(nT, nq, nf, nV) in the bound, frequencies taken from the alphabet so that all positions differ; '
        'derived quantities: every shape x values incl. zero T and zero Cv')
ASSUMPTIONS = ['frequencies and temperatures outside the alphabets are not explored']

T_ALPHA = [0., 1e-6, 1e-2, .5, 1., 15., 77.3, 100., 273.15, 298.15, 1000., 5000.]
F_ALPHA = [-3e12, -1., -1e-9, 0., 1e7, 1e9, 1e11, 3e12, 1.14e13, 4e13, 1.2e14, 1e15]
W_ALPHA = [0., 0.125, 1., 4.]
TOL = dict(rtol=1e-9, atol=1e-11)


def cases(tier):
    for t in T_ALPHA:
        for f in F_ALPHA:
            yield ['osc', t, f]
    m = 3 if tier == 'quick' else 4
    for nt, nq in itertools.product(range(1, m + 2), range(1, m + 1)):
        yield ['shape', nt, nq, m]
    for nt in (7, 16, 33) + ((64, 129) if tier == 'thorough' else ()):
        yield ['long', nt]
    for n in range(1, m + 1):
        for k in range(1, m + 1):
            yield ['derived', n, k]
    yield ['limits']
    for s in range(4):
        yield ['grid', s]


def kernels():
    from quantas.utils.physics import statistical_mechanics as sm
    return sm


def compare(r, tag, T, freq, w):
    sm = kernels()
    T, freq, w = np.array(T, dtype=float), np.ascontiguousarray(freq, dtype=float), np.array(w, dtype=float)
    keep = T.tobytes() + freq.tobytes() + w.tobytes()
    want = ref.crystal(T, freq, w)
    got = {'zpe': sm.zero_point_energy(T, freq, w), 'uth': sm.thermal_energy(T, freq, w),
           'f': sm.vibrational_free_energy(T, freq, w), 's': sm.entropy(T, freq, w),
           'cv': sm.isochoric_heat_capacity(T, freq, w)}
    r.steps += 5
    for k in ref.NAMES:
        g = np.asarray(got[k])
        if not close(g, want[k], **TOL):
            r.fail('%s:%s' % (tag, k), '%s for T=%r freq=%r w=%r gives %r, expected %r' % (
                k, T.tolist(), freq.tolist(), w.tolist(), g.tolist(), want[k].tolist()))
    if keep != T.tobytes() + freq.tobytes() + w.tobytes():
        r.fail('%s:mutates' % tag, 'a kernel changed its arguments')
    # F = U - T S, state by state, from the code's own numbers
    g = {k: np.asarray(got[k]) for k in got}
    lhs = g['f']
    rhs = g['zpe'] + g['uth'] - T[:, None] * g['s'] / 1000.
    if not close(lhs, rhs, rtol=1e-8, atol=1e-9):
        r.fail('%s:F=U-TS' % tag, 'F=%r U-TS=%r' % (lhs.tolist(), rhs.tolist()))
    for k in ('zpe', 'uth', 's', 'cv'):
        if np.any(g[k] < 0.):
            r.fail('%s:%s<0' % (tag, k), 'negative %s' % k)
    return g


def freqs(nq, nf, nv, shift=0):
    pos = [f for f in F_ALPHA if f > 0] + [2e12, 7e12, 9e12, 2.5e13, 6e13]
    a = np.zeros((nq, nf, nv))
    c = shift
    for q, b, v in itertools.product(range(nq), range(nf), range(nv)):
        a[q, b, v] = pos[c % len(pos)] * (1. + 0.01 * (c % 17))
        if c % 11 == 5:
            a[q, b, v] = 0.
        if c % 13 == 7:
            a[q, b, v] = -a[q, b, v]
        c += 1
    return a


def run_case(case):
    r = Result()
    sm = kernels()
    if case[0] == 'osc':
        _, t, f = case
        for w in W_ALPHA:
            g = compare(r, 'osc', [t], [[[f]]], [w])
            r.see(t, f, w)
    elif case[0] == 'shape':
        _, nt, nq, m = case
        T = [T_ALPHA[(3 * i + nq) % len(T_ALPHA)] for i in range(nt)]
        for nf, nv in itertools.product(range(1, m + 2), range(1, m + 1)):
            w = [W_ALPHA[(i + nf) % 4] / 4. for i in range(nq)]
            compare(r, 'shape', T, freqs(nq, nf, nv, nf), w)
            r.see(nt, nq, nf, nv)
    elif case[0] == 'long':
        nt = case[1]
        T = np.linspace(0., 2000., nt)
        compare(r, 'long', T, freqs(2, 6, 3), [0.25, 0.75])
        # every row must equal the row computed alone (no coupling between temperatures)
        fr, w = freqs(2, 6, 3), np.array([0.25, 0.75])
        for name in ('zero_point_energy', 'thermal_energy', 'vibrational_free_energy', 'entropy',
                     'isochoric_heat_capacity'):
            fn = getattr(sm, name)
            whole = np.asarray(fn(T, fr, w))
            for i in range(nt):
                r.steps += 1
                if np.asarray(fn(T[i:i + 1].copy(), fr, w))[0].tobytes() != whole[i].tobytes():
                    r.fail('long:%s:row' % name, 'row %d of %d differs from the row computed alone' % (i, nt))
        r.see('long', nt)
    elif case[0] == 'limits':
        for f in [x for x in F_ALPHA if x > 0]:
            T = 200. * ref.H * f / ref.KB               # classical limit
            g = compare(r, 'classical', [T], [[[f]]], [1.])
            if abs(g['cv'][0, 0] / (ref.NA * ref.KB) - 1.) > 1e-5:
                r.fail('dulong', 'Cv(T->inf)=%r' % g['cv'])
            T = ref.H * f / ref.KB / 900.                # frozen
            g = compare(r, 'frozen', [T], [[[f]]], [1.])
            if g['cv'][0, 0] != 0. and g['cv'][0, 0] > 1e-300:
                r.fail('frozen', 'Cv(T->0)=%r' % g['cv'])
            Ts = np.linspace(5., 3000., 40)
            g = compare(r, 'mono', Ts, [[[f]]], [1.])
            for k in ('uth', 's', 'cv'):
                if np.any(np.diff(g[k][:, 0]) < -1e-9):
                    r.fail('mono:' + k, '%s not monotonic in T for nu=%g' % (k, f))
            if np.any(np.diff(g['f'][:, 0]) > 1e-9):
                r.fail('mono:f', 'Fvib not decreasing in T')
            r.see('limits', f)
    elif case[0] == 'grid':
        # KS and gamma over the whole product of temperatures and capacities,
        # from frozen modes (tiny Cv and alpha) to the classical limit
        from quantas.utils.physics import thermodynamics as td
        T = np.array(T_ALPHA)
        cv = np.array([0., 1e-100, 1e-30, 1e-9, 1e-3, .5, 1., 25., 1e3])
        n, m = len(T), len(cv)
        Cv = np.tile(cv, (n, 1))
        V = np.full((n, m), [1e-29, 4e-28, 1.3e-27, 1.][case[1]])
        KT = np.full((n, m), [1e11, 4e9, 1., 1e12][case[1]])
        al = np.where(Cv > 1e-6, np.outer(np.linspace(-1, 1, n), np.linspace(1e-6, 3e-5, m)), Cv * 1e-6)
        KS = np.asarray(td.adiabatic_bulk_modulus(T, V, KT, al, Cv, 1e9))
        gm = np.asarray(td.gruneisen_parameter(V, KT, al, Cv))
        r.steps += 2
        for i in range(n):
            for j in range(m):
                g = al[i, j] * KT[i, j] * V[i, j] * ref.NA / Cv[i, j] if Cv[i, j] else 0.
                k = KT[i, j]
                if T[i] and Cv[i, j]:
                    k += al[i, j] ** 2 * KT[i, j] ** 2 * 1e9 * V[i, j] * T[i] * ref.NA / Cv[i, j]
                if not close(KS[i, j], k, rtol=1e-11):
                    r.fail('grid:KS', 'T=%g Cv=%g: KS=%r expected %r' % (T[i], Cv[i, j], KS[i, j], k))
                if not close(gm[i, j], g, rtol=1e-11):
                    r.fail('grid:gamma', 'T=%g Cv=%g: gamma=%r expected %r' % (T[i], Cv[i, j], gm[i, j], g))
                r.see(T[i], Cv[i, j])
    elif case[0] == 'derived':
        from quantas.utils.physics import thermodynamics as td
        _, n, m = case
        rng = [1.3, -0.7, 0., 2.9, 11.5, -3.1, 0.25, 8.]
        def arr(a, b, s, scale=1., pos=False):
            x = np.array([[rng[(i * b + j + s) % 8] for j in range(b)] for i in range(a)]) * scale
            return np.abs(x) + (1e-3 * scale if pos else 0.) if pos else x
        for s in range(4):
            V = arr(n, m, s, 1e-29, True)
            p = np.array([rng[(j + s) % 8] * 1e9 for j in range(m)])
            U = arr(n, m, s + 1, 100.)
            for name in ('enthalpy', 'gibbs'):
                got = np.asarray(getattr(td, name)(V, p, U))
                want = np.array([[U[i, j] + p[j] * V[i, j] * ref.NA / 1000. for j in range(m)] for i in range(n)])
                r.steps += 1
                if not close(got, want, rtol=1e-12, atol=1e-12):
                    r.fail('derived:' + name, '%r expected %r' % (got.tolist(), want.tolist()))
            T = np.array([[0., 300., 1000., 5.][(i + s) % 4] for i in range(n)])
            al = arr(n, m, s + 2, 1e-5)
            Cv = np.abs(arr(n, m, s + 3, 10.))           # contains zeros
            for pf in (1e9, 1e8):
                KT = arr(n, m, s, 1e11 / pf, True)
                got = np.asarray(td.adiabatic_bulk_modulus(T, V, KT, al, Cv, pf))
                r.steps += 1
                want = np.zeros((n, m))
                for i in range(n):
                    for j in range(m):
                        want[i, j] = KT[i, j]
                        if T[i] > 0 and Cv[i, j] > 0:
                            k = KT[i, j] * pf
                            want[i, j] += al[i, j] ** 2 * k * k * V[i, j] * T[i] * ref.NA / Cv[i, j] / pf
                if not close(got, want, rtol=1e-11):
                    r.fail('derived:KS', '%r expected %r' % (got.tolist(), want.tolist()))
            KT = arr(n, m, s, 1e11, True)
            got = np.asarray(td.gruneisen_parameter(V, KT, al, Cv))
            want = np.zeros((n, m))
            for i in range(n):
                for j in range(m):
                    if Cv[i, j] > 0:
                        want[i, j] = al[i, j] * KT[i, j] * V[i, j] * ref.NA / Cv[i, j]
            r.steps += 1
            if not close(got, want, rtol=1e-11):
                r.fail('derived:gamma', '%r expected %r' % (got.tolist(), want.tolist()))
            for ut in (0., 2.5):
                U0 = np.array([rng[j % 8] * 100 for j in range(m)])
                Uz = np.array([abs(rng[(j + 3) % 8]) for j in range(m)])
                Ut = arr(n, m, s)
                got = np.asarray(sm.internal_energy(U0, Uz, Ut))
                got2 = np.asarray(sm.free_energy(U0, Ut))
                r.steps += 2
                if not close(got, U0[None] + Uz[None] + Ut, rtol=1e-12, atol=1e-12):
                    r.fail('derived:Utot', repr(got))
                if not close(got2, U0[None] + Ut, rtol=1e-12, atol=1e-12):
                    r.fail('derived:F', repr(got2))
            r.see('derived', n, m, s)
    return r
