"""C22 polynomial helpers, derivative, vector and cofactor against exact rational
arithmetic."""
import itertools
from fractions import Fraction as Q

import numpy as np

from mc.core import Result, quiet

PROPERTY = 'C22'
RULE = ('fits: degrees 1-5 x point sets x all coefficient tuples of an alphabet, one curve and stacks of 1-5 curves; interpolation: 1-3 dimensional coefficients x scalars and arrays; minima: all '
        'derivatives with roots from a lattice, real and complex; helpers: angle lattice, all 3x3 matrices of an alphabet with one or two entries changed')
ASSUMPTIONS = ['arrays are C-contiguous doubles, as every caller gives', 'the determination coefficient of a constant curve is undefined']

ALPHA = [Q(-2), Q(-1), Q(0), Q(1), Q(3), Q(1, 4)]
POINTS = [[Q(-2), Q(-1), Q(0), Q(1), Q(2), Q(3)], [Q(i, 4) for i in range(-4, 9)], [Q(70), Q(72), Q(145, 2), Q(76), Q(77), Q(80), Q(81)], [Q(1), Q(2), Q(4), Q(8), Q(3), Q(6), Q(5)]]


def value(p, x):
    v = Q(0)
    for c in reversed(p):
        v = v * x + c
    return v


def arr(v):
    return np.array([float(x) for x in v])


def close(a, b, tol, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b)) if scale is None and b.size else (scale or 1.)
    return bool(np.all(np.abs(a - b) <= tol * max(s, 1e-300)))


def coefficients(d, tier):
    """all tuples with a leading coefficient of the alphabet (few for large degrees)"""
    a = ALPHA if d <= 2 or (tier and d <= 3) else [Q(-1), Q(0), Q(3)] if d <= 4 else [Q(-2), Q(1)]
    for t in itertools.product(a, repeat=d):
        for l in (Q(1), Q(-3), Q(1, 4)):
            yield t + (l,)


def cases(tier):
    th = tier == 'thorough'
    for d in range(1, 6):
        for p in range(len(POINTS)):
            yield ['fit', d, p, int(th)]
            yield ['stack', d, p, int(th)]
    for d in range(0, 6):
        yield ['interpolate', d, int(th)]
    lattice = [-3, -1, 0, .5, 2, 4] if not th else [-4, -3, -1.5, -1, 0, .5, 1, 2, 3, 4]
    for n in range(1, 5):
        for sign in (1, -1, .25):
            yield ['minimum', n, sign, lattice]
    yield ['complex', int(th)]
    for e in ('Ha', 'eV', 'Ry'):
        for l in ('A', 'bohr'):
            yield ['select', e, l, int(th)]
    yield ['derivative', int(th)]
    yield ['vector', int(th)]
    for k in range(9):
        yield ['cofactor', k]


def refuse(r, key, fn, what):
    try:
        with quiet():
            out = fn()
    except Exception as e:
        r.fail(key + ':crash', '%s: %s: %s' % (what, type(e).__name__, e))
        return None
    return out


def run_case(case):
    from quantas.utils.math import polynomials as P
    r = Result()
    kind = case[0]
    if kind in ('fit', 'stack'):
        d, X, th = case[1], POINTS[case[2]], case[3]
        if len(X) <= d:
            return r
        x = arr(X)
        fine = sorted(X + [(a + b) / 2 for a, b in zip(sorted(X), sorted(X)[1:])])
        all_p = list(coefficients(d, th))
        if kind == 'fit':
            for p in all_p:
                Y = [value(p, a) for a in X]
                y = arr(Y)
                keep = x.copy(), y.copy()
                got = refuse(r, 'polyfit', lambda: P.polyfit(x, y, d), 'polyfit(%r, %r, %d)' % (x, y, d))
                r.steps += 1
                if got is None:
                    continue
                if np.shape(got) != (d + 1,):
                    r.fail('polyfit:shape', 'degree %d gives %r' % (d, got))
                    continue
                v = [value(p, a) for a in fine]
                s = max(abs(float(c)) for c in v) + 1.
                mag = sum(abs(float(c)) * max(abs(float(a)) for a in X) ** i for i, c in enumerate(p)) + 1.
                if not close(np.polynomial.polynomial.polyval(arr(fine), got), arr(v), 1e-9, mag):
                    r.fail('polyfit:values', 'curve %r of degree %d on %r fitted as %r' % (arr(p), d, x, got))
                if case[2] < 2 and not close(got, arr(p), 1e-8, 10.):
                    r.fail('polyfit:coefficients', 'curve %r of degree %d on %r fitted as %r' % (arr(p), d, x, got))
                q = refuse(r, 'R2', lambda: P.R_squared(x, y, got), 'R_squared')
                if len(set(Y)) > 1 and q is not None and not abs(float(q) - 1.) < 1e-7 * (1 + mag ** 2 / float(np.var(y))*1e-6):
                    r.fail('R2:one', 'R2 of an exact fit of %r on %r is %r' % (arr(p), x, q))
                # any other curve: ratio of the sums of squares about the mean
                o = arr(p) + np.array([1., -.5, .25, .125, .5, .25][:d + 1])
                q = refuse(r, 'R2', lambda: P.R_squared(x, y, o), 'R_squared')
                m = sum(Y) / len(Y)
                den = sum((a - m) ** 2 for a in Y)
                if den and q is not None:
                    oq = [Q(c) for c in o.tolist()]
                    want = float(sum((value(oq, a) - m) ** 2 for a in X) / den)
                    if not abs(float(q) - want) <= 1e-7 * abs(want):
                        r.fail('R2:other', 'R2 of %r for data on %r is %r, not %r' % (o, arr(p), q, want))
                if not np.array_equal(x, keep[0]) or not np.array_equal(y, keep[1]):
                    r.fail('arguments', 'polyfit or R_squared changed its arguments')
                r.see(d, case[2], p)
        else:
            for n in (1, 2, 3, 5):
                for i in range(0, len(all_p), max(1, len(all_p) // (60 if th else 20))):
                    ps = [all_p[(i + 7 * k) % len(all_p)] for k in range(n)]
                    Y = [[value(p, a) for a in X] for p in ps]
                    y = np.array([arr(q) for q in Y])
                    got = refuse(r, 'polyfit:stack', lambda: P.polyfit(x, y, d), 'polyfit of %d curves' % n)
                    r.steps += 1
                    if got is None:
                        continue
                    if np.shape(got) != (n, d + 1):
                        r.fail('polyfit:stack:shape', '%d curves of degree %d give %r' % (n, d, np.shape(got)))
                        continue
                    for k in range(n):
                        mag = sum(abs(float(c)) * max(abs(float(a)) for a in X) ** j for j, c in enumerate(ps[k])) + 1.
                        if not close(np.polynomial.polynomial.polyval(arr(fine), got[k]), arr([value(ps[k], a) for a in fine]), 1e-9, mag):
                            r.fail('polyfit:stack:values', 'curve %d of %r fitted as %r' % (k, [arr(p) for p in ps], got[k]))
                    c = np.ascontiguousarray(got)
                    q = refuse(r, 'R2:stack', lambda: P.R_squared(x, y, c), 'R_squared of %d curves' % n)
                    if q is not None and np.shape(q) != (n,):
                        r.fail('R2:stack:shape', '%r' % (q,))
                    elif q is not None:
                        for k in range(n):
                            one = P.single_R_squared(x, y[k], c[k]) if len(set(Y[k])) > 1 else None
                            if one is not None and (abs(q[k] - one) > 1e-7 or abs(q[k] - 1.) > 1e-5):
                                r.fail('R2:stack', 'R2 of curve %d of %d is %r, alone %r' % (k, n, q[k], one))
                    v = refuse(r, 'interpolate:fit', lambda: P.interpolate(arr(fine), c), 'interpolate')
                    if v is not None:
                        for k in range(n):
                            mag = sum(abs(float(t)) * max(abs(float(a)) for a in X) ** j for j, t in enumerate(ps[k])) + 1.
                            if np.shape(v) != (n, len(fine)) or not close(v[k], arr([value(ps[k], a) for a in fine]), 1e-8, mag):
                                r.fail('interpolate:fit', 'curve %d of %d: %r' % (k, n, v))
                                break
                    r.see('stack', d, case[2], n, i)
    elif kind == 'interpolate':
        d, th = case[1], case[2]
        xs = [Q(-3), Q(-1), Q(0), Q(1, 2), Q(1), Q(5, 2), Q(73)]
        ps = [tuple(ALPHA[(i * k + j) % len(ALPHA)] for j in range(d + 1)) for i in range(1, 4) for k in range(1, 5)]
        shapes = [()] + [(n,) for n in (1, 2, 3, 5)] + [(a, b) for a in (1, 2, 3) for b in (1, 2, 4)]
        for sh in shapes:
            n = int(np.prod(sh))
            for off in range(4):
                pick = [ps[(off + i) % len(ps)] for i in range(n)]
                c = np.array([arr(p) for p in pick]).reshape(sh + (d + 1,))
                for x in xs:
                    want = arr([value(p, x) for p in pick]).reshape(sh)
                    kinds = [float(x), np.float64(float(x))] + ([int(x)] if x.denominator == 1 else [])
                    for a in kinds:
                        got = refuse(r, 'interpolate', lambda: P.interpolate(a, c), 'interpolate(%r, coefficients %r)' % (a, c.shape))
                        r.steps += 1
                        if got is not None and (np.shape(got) != sh or not close(got, want, 1e-12, 1. + np.max(np.abs(want)) * 1e2)):
                            r.fail('interpolate:scalar', '%r with %r gives %r, not %r' % (a, c, got, want))
                for m in (1, 2, len(xs)):
                    got = refuse(r, 'interpolate', lambda: P.interpolate(arr(xs[:m]), c), 'interpolate(%d points, coefficients %r)' % (m, c.shape))
                    want = np.array([arr([value(p, x) for x in xs[:m]]) for p in pick]).reshape(sh + (m,))
                    r.steps += 1
                    if got is not None and (np.shape(got) != sh + (m,) or not close(got, want, 1e-12, 1. + np.max(np.abs(want)) * 1e2)):
                        r.fail('interpolate:array', '%d points with coefficients %r give %r, not %r' % (m, c, got, want))
                r.see(d, sh, off)
    elif kind == 'minimum':
        n, sign, lattice = case[1:]
        for roots in itertools.combinations(lattice, n):
            dp = np.polynomial.polynomial.polyfromroots(roots) * sign
            for const in (0., -7.):
                p = np.concatenate(([const], dp / np.arange(1, n + 2)))
                want = sorted(a for a in roots if np.polynomial.polynomial.polyval(a, np.polynomial.polynomial.polyder(dp)) > 0)
                for add in (None, 0., 3., -.5):
                    q = p.copy()
                    if add:
                        q[1] -= add
                    got = refuse(r, 'minimum', lambda: P.find_polynomial_minimum(q, add), 'find_polynomial_minimum(%r, %r)' % (q, add))
                    r.steps += 1
                    if got is not None and (len(np.atleast_1d(got)) != len(want) or not close(sorted(np.atleast_1d(got)), want, 1e-8, 5.)):
                        r.fail('minimum', 'curve %r (derivative + %r) has minima %r, found %r' % (q, add, want, got))
            r.see(n, sign, roots)
        if n == 1:
            # a stationary point where the curve is flat to second order is no minimum
            for x in (2., .5, 8.):
                for k in (3, 5):
                    p = np.zeros(k + 1)
                    p[-1] = sign * x
                    got = refuse(r, 'minimum', lambda: P.find_polynomial_minimum(p), 'find_polynomial_minimum(%r)' % p)
                    r.steps += 1
                    if got is not None and len(np.atleast_1d(got)):
                        r.fail('minimum:inflection', '%r x^%d has minima %r' % (sign * x, k, got))
    elif kind == 'complex':
        for re_, im in itertools.product((-2., 0., 1.), (.5, 1., 3.)):
            for real in itertools.chain(itertools.combinations((-3., -.5, 2., 4.), 1), itertools.combinations((-3., -.5, 2., 4.), 2), itertools.combinations((-3., -.5, 2.), 3)):
                for sign in (1., -2.):
                    dp = np.real(np.polynomial.polynomial.polyfromroots(list(real) + [re_ + 1j * im, re_ - 1j * im])) * sign
                    p = np.concatenate(([1.], dp / np.arange(1, len(dp) + 1)))
                    want = sorted(a for a in real if np.polynomial.polynomial.polyval(a, np.polynomial.polynomial.polyder(dp)) > 0)
                    got = refuse(r, 'minimum', lambda: P.find_polynomial_minimum(p), 'find_polynomial_minimum(%r)' % p)
                    r.steps += 1
                    if got is not None and (np.iscomplexobj(got) or len(np.atleast_1d(got)) != len(want) or not close(sorted(np.atleast_1d(got)), want, 1e-7, 5.)):
                        r.fail('minimum:complex', 'curve %r has minima %r, found %r' % (p, want, got))
                    r.see(re_, im, real, sign)
    elif kind == 'select':
        from checks.c06 import SET
        from mc.systems import E_SI, L_SI
        from quantas.qha.qha import QHACalculator
        V = np.linspace(70., 82., 7)
        for P in (-5., 0., 2., 40.):
            unit = P * 1e9 * L_SI[case[2]] ** 3 / E_SI[case[1]]
            for inside in (70.5, 73., 76.25, 79., 81.5):
                for others in ((), (60.,), (45.,), (60., 40.), (100., 130.), (88., 120.), (-30., -90.), (30., 64.)):
                    for scale in (1., 1e-3):
                        roots = (inside,) + others
                        # dF/dV + P = k (V - inside) prod(V - o), the minimum at `inside`
                        dp = np.polynomial.polynomial.polyfromroots(roots)
                        at = np.polynomial.polynomial.polyval(inside, np.polynomial.polynomial.polyder(dp))
                        dp = dp / at * scale
                        p = np.concatenate(([-3.], dp / np.arange(1, len(dp) + 1)))
                        p[1] -= unit
                        F = np.polynomial.polynomial.polyval(V, p)
                        if len(p) - 1 > 5:
                            continue
                        for given in (False, True):
                            with quiet():
                                c = QHACalculator(dict(SET, trange=(300., 300., 1.), prange=(P, P, 1.), energy_unit=case[1], lenght_unit=case[2], edeg=len(p) - 1))
                            got = refuse(r, 'select', lambda: c.minimize_volume(V, F, P, p.copy() if given else None), 'minimize_volume')
                            r.steps += 1
                            if got is not None and abs(got[0] - inside) > (1e-5 if given else 1e-3):
                                r.fail('select', 'free energy %r at %r GPa on volumes %r..%r has its minimum at %r, found %r' % (p, P, V[0], V[-1], inside, got[0]))
                        r.see(case[1:3], P, roots, scale)
    elif kind == 'derivative':
        from quantas.utils.math import derivative as D
        grids = [[0., 1.], [0., 1., 2., 3.], [0., 10., 30., 35., 90.], [5., 3., 2., -1.], [298.15, 308.15, 318.15, 328.15, 338.15], [0., 1e-12, 2e-12], [1e5, 1e5 + 1, 1e5 + 2]]
        for g in grids:
            x = np.array(g)
            for a, b in itertools.product((-2., 0., .5, 1e6), (0., 1., -1e3)):
                got = refuse(r, 'derivative', lambda: D.derivative(x, a * x + b), 'derivative')
                r.steps += 1
                if got is not None and (np.shape(got) != x.shape or not close(got, np.full(len(x), a), 1e-6, abs(a) + 1e-6 * abs(b) / max(1e-9, np.ptp(x)) + 1e-12)):
                    r.fail('derivative:linear', 'slope %r on %r gives %r' % (a, g, got))
            h = np.diff(x)
            if len(x) > 2 and np.allclose(h, h[0], rtol=1e-9) and abs(h[0]) > 1e-6:
                for a in (1., -.25):
                    got = refuse(r, 'derivative', lambda: D.derivative(x, a * x * x), 'derivative')
                    if got is not None and not close(got[1:-1], 2 * a * x[1:-1], 1e-8):
                        r.fail('derivative:square', '%r x^2 on %r gives %r' % (a, g, got))
            r.see('derivative', tuple(g))
        try:
            D.derivative(np.array([1.]), np.array([1.]))
            r.fail('derivative:point', 'a single point has a derivative')
        except D.LenError:
            pass
    else:
        from quantas.utils.math import fast_math as F
        if kind == 'vector':
            n = 24 if case[1] else 12
            for i, j in itertools.product(range(n + 1), range(-n, 2 * n + 1)):
                t, f = np.pi * i / n, np.pi * j / n
                got = np.asarray(F.vector(t, f))
                r.steps += 1
                if got.shape != (3,) or not np.allclose(got, [np.sin(t) * np.cos(f), np.sin(t) * np.sin(f), np.cos(t)], atol=1e-14, rtol=0):
                    r.fail('vector', 'vector(%r, %r) is %r' % (t, f, got))
                r.see(i, j)
        else:
            base = [Q(2), Q(-1), Q(1, 2), Q(3), Q(5), Q(-4), Q(1), Q(7), Q(1, 4)]
            for k2 in range(9):
                for v, w in itertools.product((Q(0), Q(1), Q(-6), Q(5, 8)), repeat=2):
                    m = list(base)
                    m[case[1]], m[k2] = v, w
                    M = [m[0:3], m[3:6], m[6:9]]
                    cof = lambda i, j: (-1) ** (i + j) * (lambda a: a[0][0] * a[1][1] - a[0][1] * a[1][0])([[M[y][x] for x in range(3) if x != j] for y in range(3) if y != i])
                    want = np.array([[float(cof(i, j)) for j in range(3)] for i in range(3)])
                    a = np.array([[float(x) for x in row] for row in M])
                    got = refuse(r, 'cofactor', lambda: F.cofactor(a), 'cofactor')
                    r.steps += 1
                    if got is None or np.shape(got) != (3, 3) or not np.allclose(np.asarray(got), want, rtol=1e-13, atol=1e-13):
                        r.fail('cofactor', 'cofactor(%r) is %r, not %r' % (a, got, want))
                    r.see(tuple(m))
    return r
