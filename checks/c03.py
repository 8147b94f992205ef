"""C03 every parallel kernel under every schedule of the bound: compiled kernels,
threads as coroutines, decisions enumerated (mc/omp.py); oracle: the same kernel
compiled without OpenMP."""
import os

import numpy as np

from mc import build, omp
from mc.core import Result

PROPERTY = 'C03'
RULE = ('every kernel x shapes (rows fewer than, equal to, more than the threads) x 2-3 threads; all schedules with at most 1-2 preemptions at conflicting accesses, all orders of '
        'start and end; non-trivial when the schedule switches threads inside a region')
ASSUMPTIONS = ['sequentially consistent memory', 'accesses that conflict with no other thread commute (one representative order)', 'threads, barriers, locks and work sharing as libgomp',
               'conformance: the real libgomp build with 1, 2, 3 and 8 threads gives the serial values on the same cases']

SM, TH, FM = 'quantas.utils.physics.statistical_mechanics', 'quantas.utils.physics.thermodynamics', 'quantas.utils.math.fast_math'


def ramp(shape, lo, hi, k=0):
    n = int(np.prod(shape))
    a = lo + (hi - lo) * ((np.arange(n) * 7 + 3 * k) % max(1, n + 2)) / (n + 2.)
    return np.ascontiguousarray(a.reshape(shape))


def bands(s):
    nt, nb, nf, nv = s
    T = np.array([0., 1., 298.15, 1000., 77., 5., 12.][:nt])
    f = ramp((nb, nf, nv), 1e12, 3e13)
    if f.size > 2:
        f.flat[0], f.flat[1] = 0., -1e12
    return T, f, np.array([1., 2., 6.][:nb])


OSC = [(1, 1, 1, 1), (2, 1, 2, 1), (2, 2, 2, 2), (3, 2, 1, 2), (4, 1, 2, 1), (5, 1, 1, 1), (1, 3, 2, 2), (7, 1, 1, 2), (0, 1, 1, 1)]
GRID = [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (4, 2), (5, 1), (7, 3), (0, 1)]
FIT = [(1, 1, 1), (2, 2, 3), (3, 3, 2), (4, 2, 3), (5, 3, 1), (1, 4, 4), (7, 2, 2)]      # curves, coefficients, points


def grid(s, k, lo=1., hi=9.):
    return ramp(s, lo, hi, k)


def thermo(s):
    V, KT, al, Cv = grid(s, 1, 1e-29, 2e-29), grid(s, 2, 10., 90.), grid(s, 3, 1e-6, 1e-5), grid(s, 4, 1., 90.)
    if Cv.size > 1:
        Cv.flat[-1] = 0.
    return V, KT, al, Cv


KERNELS = {}
for name in ('zero_point_energy', 'thermal_energy', 'entropy', 'vibrational_free_energy', 'isochoric_heat_capacity'):
    KERNELS[name] = (SM, OSC, bands)
KERNELS['internal_energy'] = (SM, GRID, lambda s: (grid(s[1:], 1), grid(s[1:], 2), grid(s, 3)))
KERNELS['free_energy'] = (SM, GRID, lambda s: (grid(s[1:], 1), grid(s, 3)))
KERNELS['enthalpy'] = (TH, GRID, lambda s: (grid(s, 1, 1e-29, 2e-29), grid(s[1:], 2, 0., 1e10), grid(s, 3, -9., 9.)))
KERNELS['gibbs'] = KERNELS['enthalpy']
KERNELS['adiabatic_bulk_modulus'] = (TH, GRID, lambda s: (np.arange(s[0]) * 100.,) + thermo(s) + (1e9,))
KERNELS['gruneisen_parameter'] = (TH, GRID, thermo)
KERNELS['multi_interpolate_array'] = (FM, FIT, lambda s: (ramp((s[2],), -2., 3.), ramp(s[:2], -1., 1.)))
KERNELS['multi_interpolate_scalar'] = (FM, FIT, lambda s: (1.5, ramp(s[:2], -1., 1.)))
KERNELS['multi_interpolate'] = KERNELS['multi_interpolate_array']


def curves(s):
    """points, values, coefficients; the last curve is zero"""
    Y = ramp((s[0], s[2]), -2., 5., 2)
    Y[-1] = 0.
    return ramp((s[2],), -2., 3.), Y, ramp(s[:2], -1., 1.)


KERNELS['multi_R2'] = (FM, FIT, curves)
# one after the other in one process: no kernel leaves anything behind
CHAINS = [(a, b) for a in ('zero_point_energy', 'entropy', 'vibrational_free_energy') for b in ('thermal_energy', 'isochoric_heat_capacity', 'internal_energy')] + \
         [('enthalpy', 'gibbs'), ('gibbs', 'adiabatic_bulk_modulus'), ('adiabatic_bulk_modulus', 'gruneisen_parameter'), ('multi_interpolate_array', 'multi_R2'),
          ('multi_R2', 'multi_interpolate_scalar')]

_table = {}


def tables():
    if not _table:
        _table['mc'] = omp.build()
        _table['serial'] = build.build(openmp=False)
        _table['real'] = build.build()
    return _table


_mods = {}


def module(kind, mod):
    if (kind, mod) not in _mods:
        so = tables()[kind].get(mod)
        _mods[kind, mod] = omp.load(so, mod) if so else None
    return _mods[kind, mod]


def plain(x):
    if isinstance(x, (tuple, list)):
        return np.concatenate([np.asarray(y, float).ravel() for y in x])
    return np.asarray(x, float)


def equal(a, b):
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-11 * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def attempt(fn, args):
    try:
        return plain(fn(*args))
    except Exception as e:
        return type(e).__name__


def cases(tier):
    th = tier == 'thorough'
    for name in sorted(KERNELS):
        for s in KERNELS[name][1]:
            for n in (2, 3, 4) if th else (2, 3):
                yield ['kernel', name, list(s), n, 3 if th and n == 2 else 2]
        yield ['conformance', name]
    for a, b in CHAINS:
        yield ['chain', a, b, 2, 2 if th else 1]


def run_case(case):
    r = Result()
    name = case[1]
    mod, shapes, make = KERNELS[name]
    ser = getattr(module('serial', mod), name, None)
    if ser is None:
        r.see('absent', name)               # called from elsewhere now: other checks see its values
        return r
    if case[0] == 'conformance':
        os.environ.pop('OMP_NUM_THREADS', None)
        import ctypes
        real = getattr(module('real', mod), name)
        try:
            gomp = ctypes.CDLL('libgomp.so.1')
        except OSError:
            gomp = None
        for s in shapes:
            want = attempt(ser, make(tuple(s)))
            for n in (1, 2, 3, 8):
                if gomp:
                    gomp.omp_set_num_threads(n)
                for k in range(10):
                    got = attempt(real, make(tuple(s)))
                    r.steps += 1
                    if type(got) is not type(want) or (isinstance(want, str) and got != want) or (not isinstance(want, str) and not equal(got, want)):
                        r.fail('libgomp:' + name, '%s%r with %d threads gives %r, serial %r' % (name, s, n, got, want))
                        return r
                r.see('real', name, s, n)
        return r
    so = tables()['mc'][mod]
    missing = omp.undefined(so)
    if missing:
        r.see('unmodelled', tuple(missing))
        return r
    if case[0] == 'kernel':
        todo, threads, bound = [(name, tuple(case[2]))], case[3], case[4]
    else:
        if KERNELS[case[2]][0] != mod or not hasattr(module('serial', mod), case[2]):
            return r
        todo, threads, bound = [(name, KERNELS[name][1][2]), (case[2], KERNELS[case[2]][1][2])], case[3], case[4]
    m = module('mc', mod)
    sch = omp.Scheduler(so)
    args = [(k, KERNELS[k][2](s)) for k, s in todo]
    copies = [[np.array(x, copy=True) for x in a] for _, a in args]
    want = [attempt(getattr(module('serial', mod), k), a) for k, a in args]

    def call():
        return [attempt(getattr(m, k), a) for k, a in args]

    def verdict(out, st):
        if st['deadlock']:
            return 'the threads wait for each other'
        for (k, _), got, exp in zip(args, out, want):
            if type(got) is not type(exp) or (isinstance(exp, str) and got != exp) or (not isinstance(exp, str) and not equal(got, exp)):
                return '%s gives %r, serial execution %r' % (k, got, exp)
        return None
    total, steps, sites, regions, complete, found = sch.explore(call, threads, bound, verdict, cap=6000 if bound < 3 else 100000)
    if not complete and not found:          # too many orders: once more, one order where no access conflicts
        t, st, sites, regions, complete, found = sch.explore(call, threads, bound, verdict, cap=60000, reduce=True)
        total, steps = total + t, steps + st
    r.steps += steps
    r.traces = total
    r.see(*case)
    r.see('schedules', name, total, sites, regions, complete)
    if not complete:
        r.states.append('capped %r' % (case,))
    if found:
        r.fail('schedule:' + name, '%r: %d threads, decisions %r (schedule %d): %s' % (todo, threads, found[0], total, found[1]))
    for (k, a), c in zip(args, copies):
        if any(not np.array_equal(np.asarray(x), y, equal_nan=True) for x, y in zip(a, c)):
            r.fail('arguments:' + k, '%s changed its arguments' % k)
    return r


def explore(chk):
    tables()
    chk.enumerate(cases(chk.tier), run_case)
    capped = [x for x in chk.states if x.startswith('capped')]
    chk.extra['schedules'] = chk.traces
    chk.extra['capped'] = sorted(capped)
    chk.extra['exhaustive'] = not capped
