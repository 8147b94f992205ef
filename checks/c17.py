"""C17 result files and exported tables: every file against the calculator that
made it, every exportable selection (and ordered pair of selections) against the
file."""
import builtins
import contextlib
import io
import itertools
import os
import re

import h5py
import numpy as np

from mc import cli
from mc import systems as sy
from mc.core import Result, quiet, scratch

PROPERTY = 'C17'
RULE = ('runs: kind x options alphabets; exports: every selection of every file, all ordered pairs of selections in one session, all selections '
        'of synthetic files over a value alphabet (zero, negative, tiny, huge, nan) and shapes; invalid selections are asked again')
ASSUMPTIONS = ['a table gives temperatures with 2 decimals, volumes, pressures and moduli with 8, energies with 13 significant digits, elastic values with 4 decimals',
               'entropies and heat capacities are in thousandths of the energy unit']

# one word of the description of each quantity, in file and in table
WORD = {'T': 'temperature', 'V': 'volume', 'P': 'pressure', 'U0': 'static', 'Uzp': 'zero', 'Uth': 'thermal', 'Utot': 'energy', 'S': 'entropy', 'Cv': 'isochoric',
        'Fvib': 'vibrational', 'F': 'helmholtz', 'VT': 'volume', 'Cp': 'isobaric', 'Cp-Cv': 'isobaric', 'KT': 'isothermal', 'KS': 'adiabatic', 'Kp': 'derivative', 'alphaV': 'expansion',
        'H': 'enthalpy', 'G': 'gibbs', 'gruneisen': 'neisen', 'E': 'young', 'LC': 'compressib', 'Nu': 'poisson', 'waves': 'veloc'}
NOT = {'F': 'vibrational', 'Utot': 'thermal', 'VT': 'expansion', 'Cp': 'correction'}
HA_KEYS = ['Cv', 'F', 'Fvib', 'S', 'U0', 'Uth', 'Utot', 'Uzp']
QHA_KEYS = ['Cp', 'Cp-Cv', 'Cv', 'F', 'Fvib', 'G', 'H', 'KS', 'KT', 'Kp', 'S', 'Uth', 'Utot', 'Uzp', 'VT', 'alphaV', 'gruneisen']
PLANES = ['xy', 'xz', 'yz']
SOEC_COLS = {'E': 1, 'LC': 2, 'G': 2, 'Nu': 3, 'waves': 3}


def units(kind, key, o):
    if key == 'T':
        return o['tunit']
    if key in ('V', 'VT'):
        return o['vunit']
    if key in ('P', 'KT', 'KS'):
        return 'GPa'
    if key in ('S', 'Cv', 'Cp', 'Cp-Cv'):
        return 'm' + o['eunit']
    if key in ('Kp', 'gruneisen'):
        return ''
    if key == 'alphaV':
        return 'K^-1'
    return o['eunit']


def described(r, where, key, text):
    t = (text or '').lower()
    word = 'shear' if key == 'G' and 'polar' in where else WORD[key]
    if word not in t or (key in NOT and NOT[key] in t):
        r.fail(where + ':description', '%s described as %r' % (key, text))


def same(a, b, rt=0., at=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= at + rt * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def numbers(line):
    return [float(t) for t in line.split()]


def table(r, where, fn, x, y, z, xkey, ykey, key, xu, yu, zu):
    """a table of (Q)HA results"""
    text = open(fn, encoding='utf8').read()
    L = text.split('\n')
    bars = [i for i, l in enumerate(L) if l.startswith('+') and set(l.strip()) <= set('+-=')]
    if len(bars) < 3:
        r.fail(where + ':layout', '%s: %d rules in the table:\n%s' % (fn, len(bars), text[:500]))
        return
    head = '\n'.join(L[:bars[0]])
    described(r, where, key, head)
    if (zu and 'data in %s units' % zu not in head.lower() and zu.lower() not in head.lower()) or (not zu and re.search(r'\b(Ha|eV|Ry|GPa|mHa)\b', head)):
        r.fail(where + ':unit', '%s (%r) headed %r' % (key, zu, head))
    h = ' '.join(L[bars[0] + 1:bars[0] + 2])
    if not re.search(r'\b%s \(%s\b' % (xkey, re.escape(xu)), h) or not re.search(r'\b%s \(%s\b' % (ykey, re.escape(yu)), h):
        r.fail(where + ':heading', '%s: %s in %s and %s in %s headed %r' % (key, xkey, xu, ykey, yu, h))
    try:
        cols = numbers(L[bars[0] + 2])
        rows = [numbers(l) for l in L[bars[1] + 1:bars[2]]]
    except ValueError as e:
        r.fail(where + ':number', '%s: %s' % (key, e))
        return
    if not same(cols, y, at=.6e-8):
        r.fail(where + ':columns', '%s: columns %r, file %r' % (key, cols, list(y)))
        return
    if len(rows) != len(x) or any(len(q) != len(y) + 1 for q in rows):
        r.fail(where + ':shape', '%s: %d rows of %r, file %d x %d' % (key, len(rows), sorted(set(len(q) for q in rows)), len(x), len(y)))
        return
    rows = np.array(rows)
    z = np.broadcast_to(z, (len(x), len(y)))
    fixed = key in ('VT', 'KT', 'KS', 'Kp', 'V', 'P')
    if not same(rows[:, 0], x, at=.0051):
        r.fail(where + ':rows', '%s: rows %r, file %r' % (key, rows[:, 0], x))
    if not same(rows[:, 1:], z, rt=0. if fixed else 1e-12, at=.6e-8 if fixed else 0.):
        bad = np.argwhere(~((np.abs(rows[:, 1:] - z) <= 1e-7 * np.abs(z)) | (rows[:, 1:] == z)))
        r.fail(where + ':values', '%s: table %r, file %r (first differences at %r)' % (key, rows[:2, 1:], z[:2], bad[:2].tolist()))


def polar_table(r, where, fn, key, D, unit):
    text = open(fn, encoding='utf8').read()
    L = text.split('\n')
    bars = [i for i, l in enumerate(L) if l.startswith('+') and set(l.strip()) <= set('+-=')]
    if len(bars) < 3:
        r.fail(where + ':layout', '%s: %r' % (fn, text[:300]))
        return
    head = '\n'.join(L[:bars[0]])
    described(r, where + ':polar', key, head)
    if (unit and unit not in head) or (not unit and 'GPa' in head):
        r.fail(where + ':unit', '%s (%r) headed %r' % (key, unit, head))
    h = ' '.join(L[bars[0] + 1:bars[1]])
    if [p for p in re.findall(r'\((\w\w)\)', h)] != PLANES:
        r.fail(where + ':heading', '%s headed %r' % (key, h))
    word = 'shear' if key == 'G' else WORD[key]
    if 'degree' not in h.lower() or word not in h.lower():
        r.fail(where + ':heading', 'first column and %s headed %r' % (key, h))
    words = {'LC': ['pos', 'neg'] * 3, 'G': ['min', 'max'] * 3, 'Nu': ['neg', 'min', 'max'] * 3, 'waves': ['s1', 's2', 'l'] * 3}.get(key)
    # every label stands over the numbers it names
    at = [m.span() for m in re.finditer(r'\S+', L[bars[1] + 1])][1:]
    n = len(at) // 3
    for row in [i for i in range(bars[0] + 1, bars[1]) if '(xy)' in L[i]]:
        for k, m in enumerate(re.finditer(r'\(\w\w\)', L[row])):
            if not at[k * n][0] <= (m.start() + m.end()) / 2. <= at[k * n + n - 1][1] + 1:
                r.fail(where + ':heading', '%s: plane %s is not over its columns:\n%s\n%s' % (key, m.group(), L[row], L[bars[1] + 1]))
    if words:
        said = [w for w in re.sub('[_.]', '', L[bars[1] - 1].lower()).split() if re.match('^[a-z0-9]+$', w)]
        for m, (a, b) in zip(re.finditer(r'\S+', L[bars[1] - 1]), at):
            if m.end() <= a or m.start() >= b:
                r.fail(where + ':columns', '%s: label %s is not over its column:\n%s\n%s' % (key, m.group(), L[bars[1] - 1], L[bars[1] + 1]))
        if len(said) != len(words) or any(a not in b for a, b in zip(words, said)):
            r.fail(where + ':columns', '%s: columns are labelled %r, hold %r' % (key, said, words))
    try:
        rows = np.array([numbers(l) for l in L[bars[1] + 1:bars[2]]])
    except ValueError as e:
        r.fail(where + ':number', '%s: %s' % (key, e))
        return
    want = np.hstack([D['polar_%s_xy' % key][0][:, :1]] + [D['polar_%s_%s' % (key, p)][0][:, 1:] for p in PLANES])
    if rows.shape != want.shape:
        r.fail(where + ':shape', '%s: table %r, file %r' % (key, rows.shape, want.shape))
    elif not same(rows[:, 0], want[:, 0], at=.051) or not same(rows[:, 1:], want[:, 1:], at=.6e-4):
        r.fail(where + ':values', '%s: table %r..., file %r...' % (key, rows[:2], want[:2]))


def session(r, where, kind, fn, sel, o=None, extra=()):
    """exports the selections (one session); checks tables and files written"""
    base = os.path.splitext(fn)[0]
    for k in set(sel):
        if os.path.exists(base + '_%s.dat' % k):
            os.unlink(base + '_%s.dat' % k)
    before = cli.listing()
    answers, done = [], set()
    for n, k in enumerate(sel):
        answers += list(extra) + [k] + (['y'] if k in done else []) + ['y' if n + 1 < len(sel) else 'n']
        done.add(k)
    run = cli.quantas(['export', kind, fn], answers)
    r.steps += 1
    if run.crashed or run.code != 0 or run.error:
        r.fail(where + ':failed', 'export of %r: exit %r %s %s' % (sel, run.code, run.why(), run.output[-300:] if not run.exc else ''))
        return
    after = cli.listing()
    new = set(n for n in after if after[n] != before.get(n)) | (set(before) - set(after))
    want = set(base + '_%s.dat' % k for k in sel)
    if new != want:
        r.fail(where + ':files', 'export of %r wrote %r, expected %r' % (sel, sorted(new), sorted(want)))
        return
    D, info = cli.h5(fn)
    for k in set(sel):
        f = base + '_%s.dat' % k
        if kind == 'soec':
            polar_table(r, where, f, k, D, D['polar_%s_xy' % k][1])
        else:
            yk = 'V' if kind == 'ha' else 'P'
            table(r, where, f, D['T'][0], D[yk][0], D[k][0], 'T', yk, k, D['T'][1], D[yk][1], D[k][1])
    r.see(kind, tuple(sel), o and tuple(sorted(o.items())))


JOBS = ['Test', 'MgO (QHA) at 0 GPa', 'Periclase é Ω', '"x: y # z"', '']

HA_OPT = [dict(n=n, T=t, eunit=e, vunit=v, funit=f, tunit=tu, job=j) for (n, t, e, v, f, tu, j) in [
    (1, (298.15, 298.15, 1.), 'Ha', 'A', 'cm-1', 'K', JOBS[0]), (5, (0., 100., 25.), 'eV', 'bohr', 'THz', 'C', JOBS[1]), (3, (10., 10., 1.), 'Ry', 'A', 'Hz', 'K', JOBS[2]),
    (3, (0., 40., 20.), 'Ha', 'bohr', 'Hz', 'C', JOBS[3]), (2, (0., 1000., 500.), 'Ry', 'A', 'cm-1', 'K', JOBS[4]), (12, (5., 300., 5.), 'Ha', 'A', 'THz', 'K', JOBS[0])]]
QHA_OPT = [dict(n=n, T=t, P=p, eunit=e, vunit=v, funit=f, tunit=tu, job=j, scheme=s, mini=m) for (n, t, p, e, v, f, tu, j, s, m) in [
    (7, (298.15, 298.15, 1.), (0., 0., 1.), 'Ha', 'A', 'cm-1', 'K', JOBS[0], 'freq', 'poly'), (6, (100., 700., 10.), (0., 4., 2.), 'Ha', 'A', 'THz', 'K', JOBS[1], 'td', 'eos'),
    (7, (20., 60., 20.), (-1., 1., 1.), 'eV', 'bohr', 'cm-1', 'C', JOBS[2], 'td', 'poly'), (7, (100., 800., 10.), (0., 0., 1.), 'Ry', 'A', 'cm-1', 'K', JOBS[4], 'freq', 'eos')]]


def run_ha(o, fn='in.yaml'):
    s = sy.Solid()
    V = sy.volumes(s, o['n'])
    with open(fn, 'w') as f:
        f.write(sy.yaml_text(s, V, eunit=o['eunit'], vunit=o['vunit'], funit=o['funit'], job=o['job']))
    a = ['ha', fn, '-T'] + ['%r' % t for t in o['T']] + ['--eunit', o['eunit'], '--vunit', o['vunit'], '--funit', o['funit'], '--tunit', o['tunit'], '-q']
    return cli.quantas(a), 'in_HA.hdf5'


def run_qha(o, fn='in.yaml'):
    s = sy.Solid()
    V = sy.volumes(s, o['n'])
    with open(fn, 'w') as f:
        f.write(sy.yaml_text(s, V, eunit=o['eunit'], vunit=o['vunit'], funit=o['funit'], job=o['job']))
    a = ['qha', fn, '-T'] + ['%r' % t for t in o['T']] + ['-P'] + ['%r' % t for t in o['P']] + ['--eunit', o['eunit'], '--vunit', o['vunit'], '--funit', o['funit'], '--tunit', o['tunit'], '-q',
                                                                                             '-s', o['scheme'], '-m', o['mini']]
    return cli.quantas(a), 'in_QHA.hdf5'


def settings(o, kind):
    s = dict(trange=o['T'], energy_unit=o['eunit'], lenght_unit=o['vunit'], frequency_unit='cm^-1' if o['funit'] == 'cm-1' else o['funit'], temperature_unit=o['tunit'], pressure_unit='GPa',
             silent=True, debug=False, logfile=None)
    if kind == 'qha':
        s.update(prange=o['P'], qha_scheme=o['scheme'], minimization=o['mini'], kieffer=False, eos_function='birchmurnaghan', eos='BM', edeg=3, fdeg=3)
    return s


def hdf5(r, kind, o):
    run, fn = (run_ha if kind == 'ha' else run_qha)(o)
    if run.crashed or run.error or not os.path.exists(fn):
        r.fail(kind + ':run', '%r: %s %s' % (o, run.why(), run.output[-300:]))
        return None
    r.steps += 1
    D, info = cli.h5(fn)
    keys = HA_KEYS + ['T', 'V'] if kind == 'ha' else QHA_KEYS + ['T', 'P']
    if sorted(D) != sorted(keys):
        r.fail(kind + ':datasets', 'the file holds %r' % sorted(D))
        return None
    for k in keys:
        if D[k][1] != units(kind, k, o):
            r.fail(kind + ':unit', '%s has unit %r, settings %r' % (k, D[k][1], o))
        described(r, kind, k, D[k][2])
    say = [o['job'].strip('"') or 'Job', o['eunit'], o['vunit'], o['tunit'], 'cm^-1' if o['funit'] == 'cm-1' else o['funit']]
    if kind == 'qha':
        say += ['GPa', 'frequency' if o['scheme'] == 'freq' else 'thermodynamic', 'polynomial' if o['mini'] == 'poly' else 'EoS']
    if any(w not in info for w in say):
        r.fail(kind + ':info', '%r not all in %r' % (say, info))
    # the calculator alone
    from quantas.harmonic.harmonic import HACalculator
    from quantas.qha.qha import QHACalculator
    with quiet():
        c = (HACalculator if kind == 'ha' else QHACalculator)(settings(o, kind))
        err = c.read_input('in.yaml')
        assert err is None, err
        c.run()
    for k in keys:
        want = {'T': lambda: c.temperature, 'P': lambda: c.pressure, 'V': lambda: c.input.volume, 'U0': lambda: c.input.energy}.get(k, lambda: c.results[k])()
        if not same(D[k][0], want, rt=1e-10, at=1e-300):
            r.fail(kind + ':values', '%s in the file differs from the calculated one' % k)
    nT, n = len(D['T'][0]), len(D['V' if kind == 'ha' else 'P'][0])
    for k in keys:
        if D[k][0].shape not in ((nT, n), (1, n), (n,), (nT,)):
            r.fail(kind + ':shape', '%s is %r for %d x %d' % (k, D[k][0].shape, nT, n))
    return fn


TENSORS = ['cubic', 'hexagonal', 'orthorhombic', 'triclinic']
VALUES = [0., -0., 1., -1., 1e-12, -1e-12, 1234.56789, -1234.56789, 1e5, -1e5, np.nan]


def synthetic(kind, k, shape):
    """a result file holding chosen values"""
    nT, n = shape
    rng = itertools.cycle(VALUES[k:] + VALUES[:k])
    fill = lambda *s: np.array([next(rng) for _ in range(int(np.prod(s)))]).reshape(s)
    with h5py.File('syn.hdf5', 'w') as f:
        f.attrs['info'] = '\nThis file was created with Quantas.\n\nJob: synthetic\n\n(%s)\n' % kind.upper()
        if kind == 'soec':
            f.create_dataset('stiffness', data=np.eye(6)).attrs['unit'] = 'GPa'
            for q, m in SOEC_COLS.items():
                for p in PLANES:
                    d = f.create_dataset('polar_%s_%s' % (q, p), data=np.column_stack((np.linspace(0., 360., nT), fill(nT, m))))
                    d.attrs['unit'] = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'Nu': '', 'waves': 'km s^-1'}[q]
            return list(SOEC_COLS)
        o = dict(tunit='K', vunit='A', eunit='Ha')
        keys = HA_KEYS if kind == 'ha' else QHA_KEYS
        ax = {'T': np.linspace(0., 2000., nT), 'V': np.linspace(70., 90., n), 'P': np.linspace(-2., 10., n)}
        for a in ('T', 'V' if kind == 'ha' else 'P'):
            d = f.create_dataset(a, data=ax[a])
            d.attrs['unit'], d.attrs['desc'] = units(kind, a, o), WORD[a]
        for q in keys:
            d = f.create_dataset(q, data=fill(n) if q == 'U0' else fill(1, n) if q == 'Uzp' and kind == 'ha' else fill(nT, n))
            d.attrs['unit'], d.attrs['desc'] = units(kind, q, o), WORD[q]
    return keys


@contextlib.contextmanager
def typed(answers):
    it = iter(answers)
    old = builtins.input

    def fake(prompt=''):
        try:
            return next(it)
        except StopIteration:
            raise EOFError
    builtins.input = fake
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        builtins.input = old


def legacy(r, kind):
    """quantas.IO: reader and exporter of result files"""
    from quantas.IO.hdf5_export import QuantasHDF5Export
    from quantas.IO.hdf5_reader import QuantasHDF5Reader
    keys = synthetic(kind, 0, (4, 3))
    D, info = cli.h5('syn.hdf5')
    rd = QuantasHDF5Reader('syn.hdf5')
    rd.read()
    for k in list(D) + ['nope', '']:
        r.steps += 1
        ok = k in D
        if (rd.has_data(k) is True) != ok:
            r.fail('reader:has', 'has_data(%r) is %r' % (k, rd.has_data(k)))
        try:
            got = rd.get_data(k)
            if ok != isinstance(got, np.ndarray) or (ok and not same(got, D[k][0])):
                r.fail('reader:data', 'get_data(%r) is %r' % (k, got))
            for a in ('unit', 'desc', 'other'):
                want = D[k][{'unit': 1, 'desc': 2}[a]] if ok and a != 'other' and D[k][{'unit': 1, 'desc': 2}[a]] is not None else None
                got = rd.get_attribute(k, a)
                if (want is not None and got != want) or (want is None and 'not' not in str(got)):
                    r.fail('reader:attribute', 'get_attribute(%r, %r) is %r, file %r' % (k, a, got, want))
            for n in (0, 1, 2, 99):
                shape = D[k][0].shape if ok else ()
                if ok and len(shape) < 2:
                    continue
                got = rd.get_data_row(k, n)
                want = D[k][0][n] if ok and n < shape[0] else None
                if (want is None) != isinstance(got, str) or (want is not None and not same(got, want)):
                    r.fail('reader:row', 'get_data_row(%r, %d) is %r' % (k, n, got))
                got = rd.get_data_column(k, n)
                want = D[k][0][:, n] if ok and n < shape[1] else None
                if (want is None) != isinstance(got, str) or (want is not None and not same(got, want)):
                    r.fail('reader:column', 'get_data_column(%r, %d) is %r' % (k, n, got))
        except Exception as e:
            r.fail('reader:crash', '%r: %s: %s' % (k, type(e).__name__, e))
        if ok and k not in rd.info:
            r.fail('reader:info', '%r not in %r' % (k, rd.info))
        r.see('reader', kind, k)
    if kind == 'soec':
        ex = QuantasHDF5Export()
        if not ex.read_input('syn.hdf5'):
            r.fail('exporter:soec', 'an elastic file is accepted as (Q)HA results')
        return
    yk = 'V' if kind == 'ha' else 'P'
    for sel in itertools.chain([(k,) for k in keys + ['T', yk]], itertools.permutations(keys[:5] + ['nope'], 2)):
        for name in ('', 'mine.dat'):
            for f in list(os.listdir('.')):
                if f.endswith('.dat'):
                    os.unlink(f)
            answers = ['help']
            good = [k for k in sel if k != 'nope']
            for n, k in enumerate(sel):
                answers += [k]
                if k != 'nope':
                    answers += [name and '%d%s' % (n, name)] + (['maybe', 'y'] if n + 1 < len(sel) else ['n'])
            answers += ['quit']
            try:
                with typed(answers):
                    ex = QuantasHDF5Export()
                    err = ex.read_input('syn.hdf5')
                    if err is None:
                        ex.run()
            except Exception as e:
                r.fail('exporter:crash', '%r: %s: %s' % (sel, type(e).__name__, e))
                continue
            if err is not None:
                r.fail('exporter:refused', '%r' % err)
                continue
            r.steps += 1
            made = sorted(f for f in os.listdir('.') if f.endswith('.dat'))
            want = sorted(('%d%s' % (n, name)) if name else 'syn_%s.dat' % k for n, k in enumerate(sel) if k != 'nope')
            if made != want:
                r.fail('exporter:files', '%r wrote %r, expected %r' % (sel, made, want))
                continue
            for n, k in enumerate(sel):
                if k in good:
                    L = open(('%d%s' % (n, name)) if name else 'syn_%s.dat' % k, encoding='utf8').read().split('\n')
                    bars = [i for i, l in enumerate(L) if l.startswith('+')]
                    rows = [numbers(l) for l in L[bars[1] + 1:bars[2]]]
                    z = D[k][0].reshape(-1, 1) if k == 'T' else D[k][0]
                    z = np.broadcast_to(z, (4, 3))
                    if not same([q[0] for q in rows], D['T'][0], at=.0051) or not same(numbers(L[bars[0] + 2]), D[yk][0], at=1e-2) or \
                            not same([q[1:] for q in rows], z, rt=1e-7, at=.0051 if k == 'T' else .6e-8):
                        r.fail('exporter:values', '%s: %r, file %r' % (k, rows, z))
                    if D[k][1] not in ' '.join(L[:bars[0]]):
                        r.fail('exporter:unit', '%s: %r' % (k, L[:bars[0]]))
            r.see('exporter', kind, sel, name)


def seismic(r, k):
    """the exporter of the seismic module, on a synthetic file"""
    from quantas.seismic.utils.export import QuantasSeismicExport
    from click.testing import CliRunner
    import click
    sets = ['ssecondary', 'fsecondary', 'primary']
    rng = itertools.cycle([.5, -.25, 1.5, 0., 12.125, -3.75, 8.0625][k:] + [6.5, 90.])
    info = ('\nThis file was created with Quantas.\n\nIt contains the results of the Christoffel equation applied to the second-order\nelastic constants (SOECs, matrix in '
            'Voigt\'s notation), performed with the\nfollowing settings:\n  - pressure scale:    GPa\n  - density: kg m^-3\n\nThis file contains three datasets:\n  - slow secondary data '
            '(ssecondary)\n  - fast secondary data (fsecondary)\n  - primary data (primary)\n\nEach dataset contains the following results (measurement unit):\n  - Column 1     : Theta angle (rad)\n')
    with h5py.File('sei.hdf5', 'w') as f:
        f.attrs['info'] = info
        for s in sets:
            f.create_dataset(s, data=np.array([next(rng) for _ in range(6 * 14)]).reshape(6, 14))
    D, _ = cli.h5('sei.hdf5')

    @click.command()
    def go():
        e = QuantasSeismicExport()
        e.load('sei.hdf5')
        assert e.error is None
        e.run()
    for sel in itertools.chain([(s,) for s in sets], itertools.permutations(sets, 2), itertools.permutations(sets, 3)):
        for f in list(os.listdir('.')):
            if f.endswith('.dat'):
                os.unlink(f)
        text = ''.join('%s\n%s\n' % (s, 'y' if n + 1 < len(sel) else 'n') for n, s in enumerate(sel))
        res = CliRunner().invoke(go, input=text)
        r.steps += 1
        if res.exception:
            r.fail('seismic:failed', '%r: %r' % (sel, res.exception))
            continue
        made = sorted(f for f in os.listdir('.') if f.endswith('.dat'))
        if made != sorted('sei_%s.dat' % s for s in sel):
            r.fail('seismic:files', '%r wrote %r' % (sel, made))
            continue
        for s in sel:
            text = open('sei_%s.dat' % s).read()
            rows = []
            for l in text.split('\n'):
                t = l.split()
                if len(t) == 14:
                    try:
                        rows.append([float(x) for x in t])
                    except ValueError:
                        pass
            if not same(np.array(rows), D[s][0], at=.6e-3):
                r.fail('seismic:values', '%s: %r, file %r' % (s, rows[:2], D[s][0][:2]))
            if '(%s)' % s not in text or any('(%s)' % t in text for t in sets if t != s):
                r.fail('seismic:heading', '%s headed %r' % (s, text[:900]))
        r.see('seismic', sel, k)


def cases(tier):
    th = tier == 'thorough'
    for i in range(len(HA_OPT)):
        yield ['run', 'ha', i]
    for i in range(len(QHA_OPT)):
        yield ['run', 'qha', i]
    for t in TENSORS:
        for polar in (0, 1):
            for rho in (0, 1):
                yield ['soec', t, polar, rho]
    for kind, keys in (('ha', HA_KEYS), ('qha', QHA_KEYS), ('soec', list(SOEC_COLS))):
        for a in keys:
            yield ['pairs', kind, a]
        for k in range(len(VALUES) if th else 3):
            for shape in ((1, 1), (2, 3), (3, 1), (1, 4), (3, 3), (60, 2)):
                yield ['synthetic', kind, k, list(shape)]
        yield ['legacy', kind]
    for k in range(3):
        yield ['seismic', k]


def run_case(case):
    r = Result()
    with scratch():
        if case[0] == 'run':
            o = (HA_OPT if case[1] == 'ha' else QHA_OPT)[case[2]]
            fn = hdf5(r, case[1], o)
            if fn:
                for k in HA_KEYS if case[1] == 'ha' else QHA_KEYS:
                    session(r, case[1] + ':export', case[1], fn, [k], o=dict(i=case[2]))
        elif case[0] == 'soec':
            from checks.c15 import tensor
            from mc import elast
            C = tensor(case[1], 'A', 1)
            with open('in.dat', 'w') as f:
                f.write('Soec job\n')
                f.write(elast.text(C) if hasattr(elast, 'text') else ''.join(' '.join('%.6f' % C[i][j] for j in range(6)) + '\n' for i in range(6)))
                if case[3]:
                    f.write('3300.\n')
            run = cli.quantas(['soec', 'in.dat', '-q'] + (['--polar'] if case[2] else []))
            if run.crashed or run.error or not os.path.exists('in_SOEC.hdf5'):
                r.fail('soec:run', '%s %s' % (run.why(), run.output[-300:]))
                return r
            D, info = cli.h5('in_SOEC.hdf5')
            sel = [k for k in SOEC_COLS if case[3] or k != 'waves'] if case[2] else []
            want = ['stiffness', 'compliance', 'averages', 'eigenvals'] + ['polar_%s_%s' % (k, p) for k in sel for p in PLANES]
            if sorted(D) != sorted(want):
                r.fail('soec:datasets', 'the file holds %r, computed %r' % (sorted(D), sorted(want)))
                return r
            if 'Soec job' not in info or 'GPa' not in info:
                r.fail('soec:info', '%r' % info)
            C = np.round(C, 6)
            if not same(D['stiffness'][0], C, rt=1e-12) or D['stiffness'][1] != 'GPa':
                r.fail('soec:values', 'stiffness %r' % (D['stiffness'],))
            if not same(D['compliance'][0], np.linalg.inv(C) * 1e3, rt=1e-9, at=1e-12) or D['compliance'][1] != 'TPa^-1':
                r.fail('soec:values', 'compliance %r' % (D['compliance'],))
            if not same(D['averages'][0], elast.averages(C), rt=1e-9, at=1e-9) or D['averages'][1] != 'GPa':
                r.fail('soec:values', 'averages %r' % (D['averages'],))
            if not same(D['eigenvals'][0], np.linalg.eigvalsh(C), rt=1e-9, at=1e-9) or D['eigenvals'][1] != 'GPa':
                r.fail('soec:values', 'eigenvalues %r' % (D['eigenvals'],))
            for k in sel:
                for p in PLANES:
                    v, u, _ = D['polar_%s_%s' % (k, p)]
                    if u != {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'Nu': '', 'waves': 'km s^-1'}[k]:
                        r.fail('soec:unit', '%s: %r' % (k, u))
                session(r, 'soec:export', 'soec', 'in_SOEC.hdf5', [k])
            if not sel:
                before = cli.listing()
                for k in SOEC_COLS:
                    run = cli.quantas(['export', 'soec', 'in_SOEC.hdf5'], [k, 'n'])
                    if run.crashed and not run.error:
                        r.fail('soec:nothing', 'export of %s from a file without it: %s' % (k, run.why()))
                if cli.listing() != before:
                    r.fail('soec:nothing', 'values that were not computed are exported: %r' % sorted(set(cli.listing()) - set(before)))
            r.see(*case)
        elif case[0] == 'pairs':
            keys = synthetic(case[1], 1, (3, 2))
            for b in keys:
                session(r, 'pair', case[1], 'syn.hdf5', [case[2], b])
            session(r, 'pair:invalid', case[1], 'syn.hdf5', [case[2]], extra=['nope', '', case[2] + 'x'])
        elif case[0] == 'synthetic':
            keys = synthetic(case[1], case[2], case[3])
            for k in keys:
                session(r, 'synthetic', case[1], 'syn.hdf5', [k])
                r.see(*(case + [k]))
        elif case[0] == 'legacy':
            legacy(r, case[1])
        else:
            seismic(r, case[1])
    return r
