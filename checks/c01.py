"""C01 unit conversions: every ordered pair of documented scale names x value
kinds x values, against an independent SI table."""
import itertools
import numpy as np
from scipy import constants as cs
from mc.core import Result, close

PROPERTY = 'C01'
RULE = ('every ordered pair (triple for energy/volume/pressure) of accepted scale spellings x '
        'every value kind x every value of the alphabet; non-trivial: source and target differ')
ASSUMPTIONS = ['CODATA constants of the installed scipy are taken as the definition of Ha, Ry, eV, bohr']

ENERGY = {'Hartree': 'ha', 'hartree': 'ha', 'Ha': 'ha', 'ha': 'ha', 'electron volt': 'ev', 'eV': 'ev', 'ev': 'ev',
          'Rydberg': 'ry', 'rydberg': 'ry', 'Ry': 'ry', 'ry': 'ry', 'kJ/mol': 'kj', 'kj/mol': 'kj', 'kjmol': 'kj'}
E_SI = {'ha': cs.value('Hartree energy'), 'ev': cs.e, 'ry': cs.value('Rydberg constant times hc in J'),
        'kj': 1000. / cs.Avogadro}
LEN = {'metre': 'm', 'm': 'm', 'Angstrom': 'a', 'angstrom': 'a', 'A': 'a', 'a': 'a', 'Bohr': 'b', 'bohr': 'b'}
L_SI = {'m': 1., 'a': 1e-10, 'b': cs.value('Bohr radius')}
PRES = {'Pa': 1., 'pa': 1., 'kPa': 1e3, 'kpa': 1e3, 'MPa': 1e6, 'mpa': 1e6, 'GPa': 1e9, 'gpa': 1e9,
        'bar': 1e5, 'kbar': 1e8, 'Mbar': 1e11, 'mbar': 1e11, 'Gbar': 1e14, 'gbar': 1e14}
FREQ = {'cm^-1': 100. * cs.c, 'Hz': 1., 'hz': 1., 'THz': 1e12, 'thz': 1e12}
TEMP = {}
for names, tag in ((('Celsius', 'celsius', 'C', 'c'), 'C'), (('Kelvin', 'kelvin', 'K', 'k'), 'K'),
                   (('Fahrenheit', 'fahrenheit', 'F', 'f'), 'F'), (('Rankine', 'rankine', 'R', 'r'), 'R')):
    for nm in names:
        TEMP[nm] = tag
VALS = [0., 1., -1., 0.5, 298.15, -275.4625427009, 1e-6, 1.2345e5]
KINDS = ['float', 'int', 'list', 'tuple', 'int_array', 'array', 'array2', 'strided', 'npfloat', 'array0']
E2P = {'Hartree': 'ha', 'ha': 'ha', 'Ha': 'ha', 'eV': 'ev', 'ev': 'ev', 'electron volt': 'ev',
       'Ry': 'ry', 'rydberg': 'ry'}
V2P = {'A': 'a', 'a': 'a', 'angstrom': 'a', 'Angstrom': 'a', 'bohr': 'b', 'Bohr': 'b'}


def to_k(v, s):
    return {'C': v + 273.15, 'K': v, 'F': (v - 32.) * 5. / 9. + 273.15, 'R': v * 5. / 9.}[s]


def from_k(v, s):
    return {'C': v - 273.15, 'K': v, 'F': (v - 273.15) * 9. / 5. + 32., 'R': v * 9. / 5.}[s]


def make(kind):
    """(value handed to the code, plain float array it stands for)"""
    a = np.array(VALS)
    if kind == 'float':
        return -275.4625427009, np.array(-275.4625427009)
    if kind == 'int':
        return 7, np.array(7.)
    if kind == 'npfloat':
        return np.float64(3.25), np.array(3.25)
    if kind == 'array0':
        return np.array(3.25), np.array(3.25)
    if kind == 'list':
        return list(VALS), a
    if kind == 'tuple':
        return tuple(VALS), a
    if kind == 'int_array':
        return np.arange(-2, 5), np.arange(-2., 5.)
    if kind == 'array':
        return a.copy(), a
    if kind == 'array2':
        return np.arange(12.).reshape(3, 4) - 3.5, np.arange(12.).reshape(3, 4) - 3.5
    if kind == 'strided':
        return np.arange(20.)[::3], np.arange(20.)[::3].copy()
    raise KeyError(kind)


def cases(tier):
    for fn, tab in (('convert_energy', ENERGY), ('convert_lenght', LEN), ('convert_volume', LEN),
                    ('convert_pressure', PRES), ('convert_frequency', FREQ), ('convert_temperature', TEMP)):
        for a in tab:
            yield ['pairs', fn, a]
        yield ['unsupported', fn, '']
    for a in E2P:
        yield ['e2p', '', a]
    yield ['unsupported3', '', '']


def snapshot(v):
    return v.tobytes() if isinstance(v, np.ndarray) else repr(v)


def run_case(case):
    from quantas.utils.physics import units as u
    r = Result()
    kind, fn, a = case
    if kind == 'pairs':
        f = getattr(u, fn)
        tab = dict(convert_energy=ENERGY, convert_lenght=LEN, convert_volume=LEN, convert_pressure=PRES,
                   convert_frequency=FREQ, convert_temperature=TEMP)[fn]
        for b in tab:
            for k in KINDS:
                v, ref = make(k)
                before = snapshot(v)
                got = f(v, a, b)
                r.steps += 1
                if fn == 'convert_energy':
                    want = ref * (E_SI[ENERGY[a]] / E_SI[ENERGY[b]])
                elif fn == 'convert_lenght':
                    want = ref * (L_SI[LEN[a]] / L_SI[LEN[b]])
                elif fn == 'convert_volume':
                    want = ref * (L_SI[LEN[a]] / L_SI[LEN[b]]) ** 3
                elif fn in ('convert_pressure', 'convert_frequency'):
                    want = ref * (tab[a] / tab[b])
                else:
                    want = from_k(to_k(ref, TEMP[a]), TEMP[b])
                tol = dict(rtol=1e-11, atol=1e-9 if fn == 'convert_temperature' else 0.)
                if not close(got, want, **tol):
                    r.fail('%s:%s->%s' % (fn, a, b), '%s(%r,%r,%r)=%r, expected %r' % (fn, v, a, b, got, want))
                if snapshot(v) != before:
                    r.fail('%s:mutates' % fn, '%s(%s,%r,%r) changed its argument' % (fn, k, a, b))
                # chained through every third scale and back
                if k == 'array':
                    for c in tab:
                        back = f(f(got, b, c), c, a)
                        r.steps += 2
                        if not close(back, ref, rtol=1e-10, atol=1e-9 if fn == 'convert_temperature' else 0.):
                            r.fail('%s:cycle:%s->%s->%s' % (fn, a, b, c), 'round trip gives %r' % back)
            r.see(fn, a, b)
    elif kind == 'unsupported':
        f = getattr(u, fn)
        good = {'convert_energy': 'ha', 'convert_lenght': 'bohr', 'convert_volume': 'bohr', 'convert_pressure': 'GPa',
                'convert_frequency': 'THz', 'convert_temperature': 'K'}[fn]
        for bad in ('', 'parsec', 'GeVx', 'A^2'):
            for args in ((bad, good), (good, bad)):
                r.steps += 1
                r.see(fn, 'unsupported', bad)
                try:
                    got = f(1., *args)
                except NotImplementedError:
                    continue
                except Exception as e:
                    r.fail('%s:unsupported' % fn, '%s%r raised %r' % (fn, args, e))
                else:
                    r.fail('%s:unsupported' % fn, '%s%r returned %r' % (fn, args, got))
    elif kind == 'e2p':
        for b in V2P:
            for p in PRES:
                fac = E_SI[E2P[a]] / L_SI[V2P[b]] ** 3 / PRES[p]
                for k in KINDS:
                    for name, want in (('energy_to_pressure', lambda x: x * fac),
                                       ('pressure_to_energy', lambda x: x / fac)):
                        v, ref = make(k)
                        before = snapshot(v)
                        got = getattr(u, name)(v, a, b, p)
                        r.steps += 1
                        if not close(got, want(ref), rtol=1e-11):
                            r.fail('%s:%s,%s,%s' % (name, a, b, p), '%s(%r,..)=%r, expected %r' % (
                                name, v, got, want(ref)))
                        if snapshot(v) != before:
                            r.fail('%s:mutates' % name, '%s(%s,%r,%r,%r) changed its argument' % (name, k, a, b, p))
                r.see('e2p', a, b, p)
    elif kind == 'unsupported3':
        for name in ('energy_to_pressure', 'pressure_to_energy'):
            for args in (('kj', 'A', 'GPa'), ('ha', 'm2', 'GPa'), ('ha', 'A', 'psi')):
                r.steps += 1
                r.see(name, args)
                try:
                    getattr(u, name)(1., *args)
                except NotImplementedError:
                    continue
                except Exception as e:
                    r.fail('%s:unsupported' % name, repr(e))
                else:
                    r.fail('%s:unsupported' % name, 'accepted %r' % (args,))
    return r
