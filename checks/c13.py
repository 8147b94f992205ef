"""C13 independence: every ordered sequence of commands in one process, and every
interleaving of the steps of two analyses made through the Python classes; each
outcome is compared with that of the same operation alone in a fresh process."""
import itertools
import os
import re
import warnings

import h5py
import numpy as np

from checks import c10, c12, c15, c17, c18, c21
from mc import cli, core
from mc import elast as el
from mc import systems as sy
from mc.core import Result, isolated, pmap, quiet, scratch

PROPERTY = 'C13'
RULE = ('all ordered pairs of the operations (every command, with several inputs and options, refused inputs, exports), all ordered triples of the quick ones, every operation repeated, '
        'in the same folder and with the same file names; all interleavings, up to the bound of switches, of the steps of two analyses made with the Python classes; '
        'non-trivial: each (history, operation) outcome')
ASSUMPTIONS = ['the outcome of an operation is the text on the screen, and every file it leaves, but for the times it took',
               'one history is executed by one thread']


# ---- commands: name -> (arguments, answers, {file: content})
def solids():
    s1 = sy.Solid(nus=[[0., 0., 0., 9., 12., 14.]])
    s2 = sy.Solid(V0=90., nus=[[0., 5., 7.], [4., 8., 11.]], weights=[1., 3.])
    return s1, s2


def soectext(C, rho=3000., job='soec job'):
    return job + '\n' + '\n'.join(' '.join('%.4f' % v for v in x) for x in C) + ('\n%r\n' % rho if rho else '\n')


def h5bytes(kind, k):
    with scratch():
        c17.synthetic(kind, k, (3, 2))
        return open('syn.hdf5', 'rb').read()


def commands():
    s1, s2 = solids()
    t = sy.yaml_text
    C = {n: c15.tensor(n, 'N', 0) for n in ('cubic', 'triclinic') if n in el.GEN}
    iso = c15.isotropic(120., 60.)
    M = {}

    def add(name, args, answers=(), **files):
        M[name] = (args, list(answers), {k.replace('_', '.', 1) if k != 'in' else k: v for k, v in files.items()})
    T = ['-T', '0', '400', '200']
    add('ha', ['ha', 'in'], **{'in': t(s1, sy.volumes(s1, 2))})
    add('haunits', ['ha', 'in', '--eunit', 'eV', '--vunit', 'bohr', '--funit', 'THz', '-d'] + T, **{'in': t(s2, sy.volumes(s2, 3), eunit='eV', vunit='bohr', funit='THz')})
    add('haC', ['ha', 'in', '--tunit', 'C', '-q', '-o', 'out'] + T, **{'in': t(s2, sy.volumes(s2, 1))})
    add('haold', ['ha', 'in', '-o', 'out'], ['n'], **{'in': t(s1, sy.volumes(s1, 2)), 'out_hdf5': 'old'})
    add('hafew', ['ha', 'in'], **{'in': t(s1, sy.volumes(s1, 2)).replace('natom: 2', 'natom: 3')})
    add('hayaml', ['ha', 'in'], **{'in': 'job: [\n'})
    add('hausage', ['ha', 'in', '-T', '3', '2'], **{'in': 'x'})
    add('qha', ['qha', 'in', '-m', 'poly'] + T + ['-P', '0', '4', '2'], **{'in': t(s1, sy.volumes(s1, 6))})
    add('qhatd', ['qha', 'in', '-m', 'eos', '-s', 'td', '--eos', 'V', '-d'] + T + ['-P', '0', '1', '1'], **{'in': t(s2, sy.volumes(s2, 7))})
    add('qhaac', ['qha', 'in', '-m', 'poly', '-a', '--punit', 'kbar', '-T', '300', '300', '1'], **{'in': t(s1, sy.volumes(s1, 5)) + 'acoustic:\n- band:\n' + '  - frequency: [ 50.0, 50.0, 50.0, 50.0, 50.0 ]\n' * 3})
    add('qhafew', ['qha', 'in', '-m', 'poly'], **{'in': t(s1, sy.volumes(s1, 3))})
    add('qharange', ['qha', 'in', '-m', 'poly', '-P', '900', '900', '1'], **{'in': t(s1, sy.volumes(s1, 6))})
    add('soec', ['soec', 'in'], **{'in': soectext(C['cubic'])})
    add('soectri', ['soec', 'in', '--polar', '-o', 'out'], **{'in': soectext(C['triclinic'], job='other')})
    add('soecfig', ['soec', 'in', '--polar', '-p', '--dpi', '20', '-o', 'fig', '-q'], **{'in': soectext(C['cubic'], job='figures')})
    add('qhaall', ['qha', 'in', '-m', 'eos', '-s', 'td', '--eos', 'PT', '--edeg', '4', '--fdeg', '4', '--eunit', 'Ry', '--vunit', 'bohr', '--funit', 'THz', '--tunit', 'C', '--punit', 'kbar',
                   '-P', '0', '30', '15', '-q', '-d'] + T, **{'in': t(s2, sy.volumes(s2, 7), eunit='Ry', vunit='bohr', funit='THz')})
    add('soecnorho', ['soec', 'in'], **{'in': soectext(iso, None)})
    add('soecbad', ['soec', 'in'], **{'in': soectext(np.diag([1., 1., -1., 1., 1., 1.]))})
    add('soecasym', ['soec', 'in'], **{'in': soectext(np.eye(6) + np.eye(6, k=1))})
    d = c10.dataset('all')
    txt = lambda cols, job: 'JOB\n%s\nFORMAT\n%s\nDATA\n' % (job, ' '.join(cols)) + ''.join(' '.join('%.5f' % d[c][i] for c in cols) + '\n' for i in range(10))
    add('eos', ['eosfit', 'in'], ['v', '2', '3', 'y', '50', '', '', '', 'n', 'n', 'y', 'y', 'n', '3', '', 'n', 'n', 'n', 'n', 'n', 'n'], **{'in': txt(['p', 'v', 'sigmap', 'sigmav'], 'eos1')})
    add('eosab', ['eosfit', 'in', '-o', 'out'], ['a', '4', '2', '', 'n', 'n', 'n', 'n', 'n', 'n'], **{'in': txt(['p', 'a', 'b'], 'eos2')})
    add('eosbare', ['eosfit', 'in'], ['c', '1', '3', 'n', 'n', 'n', 'n', 'n', 'n'], **{'in': 'FORMAT' + txt(['p', 'c'], 'x').split('FORMAT')[1]})
    add('eosend', ['eosfit', 'in'], ['v', '5'], **{'in': txt(['p', 'v', 'a'], 'eos3')})
    add('eosbad', ['eosfit', 'in'], **{'in': 'JOB\nx\nFORMAT\np v\nDATA\n1 2\n3\n'})
    for n, (args, files, exp) in c18.menu().items():
        if n in ('phonopy', 'disp', 'gamma', 'qha', 'qhasup', 'soec', 'vasp', 'cut', 'cutq', 'foreign', 'foreignv', 'super'):
            M['gen' + n] = (['inpgen'] + args + ['-o', 'gen'], ['Job'], files)
    for kind, keys in (('ha', ['F', 'n']), ('qha', ['VT', 'y', 'Cp', 'n']), ('soec', ['E', 'y', 'Nu', 'n'])):
        add('exp' + kind, ['export', kind, 'x.hdf5'], keys, **{'x_hdf5': h5bytes(kind, 1)})
    add('expnone', ['export', 'qha', 'x.hdf5'], ['nope', 'G', 'n'], **{'x_hdf5': h5bytes('qha', 2)})
    add('expbad', ['export', 'ha', 'x.hdf5'], ['F', 'n'], **{'x_hdf5': b'nothing'})
    return M


def clean():
    for f in os.listdir('.'):
        os.remove(f)


TIMES = re.compile(r'[^\n]*(?:time|elapse|msec)[^\n]*', re.I)


def leaves():
    out = {}
    for f in sorted(os.listdir('.')):
        if f.endswith('.hdf5'):
            try:
                D, info = cli.h5(f)
                out[f] = (info, {k: (v[0].tolist(), str(v[1]), str(v[2])) for k, v in D.items()})
                continue
            except Exception:
                pass
        b = open(f, 'rb').read()
        out[f] = b if f.endswith('.png') else TIMES.sub('<time>', b.decode('utf8', 'replace'))
    return out


def command(name):
    """outcome of one command, in this process and folder"""
    args, answers, files = commands()[name] if name not in _made else _made[name]
    clean()
    for f, t in files.items():
        with open(f, 'wb') as g:
            g.write(t if isinstance(t, bytes) else t.encode())
    with warnings.catch_warnings():
        run = cli.quantas(args, answers)
    return {'screen': TIMES.sub('<time>', run.output), 'code': run.code, 'exc': type(run.exc).__name__ if run.crashed else None, 'files': leaves()}


_made = {}
ALONE = {}


def prepare():
    if not _made:
        _made.update(commands())


def alone(name):
    if name not in ALONE:
        ALONE[name] = isolated(command if name in _made else whole, name)
    return ALONE[name]


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-13 * max(abs(a), abs(b))
    if type(a) != type(b):
        return False
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b, at=''):
    """where two outcomes differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s/%s is only in %s' % (at, k, 'the history' if k in a else 'the run alone')
            if not eq(a[k], b[k]):
                return diff(a[k], b[k], '%s/%s' % (at, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not eq(x, y):
                return diff(x, y, '%s[%d]' % (at, i))
    if isinstance(a, str) and isinstance(b, str):
        for x, y in itertools.zip_longest(a.split('\n'), b.split('\n')):
            if x != y:
                return '%s: line %r, alone %r' % (at, x, y)
    return '%s: %s, alone %s' % (at, repr(a)[:300], repr(b)[:300])


def tree(prefix, nexts, depth, todo):
    """runs prefix[-1] here, then every continuation in a child; [(history, difference)]"""
    got = command(prefix[-1])
    bad = [] if eq(got, ALONE[prefix[-1]]) else [(prefix, diff(got, ALONE[prefix[-1]]))]
    n = 1
    if depth > 1:
        for x in nexts:
            b, m = isolated(tree, prefix + [x], nexts, depth - 1, todo)
            bad += b
            n += m
    return bad, n


# ---- analyses made with the classes, one step after the other
def analyses():
    s1, s2 = solids()
    T = (0., 400., 200.)

    def base(tag, **kw):
        o = {'trange': T, 'energy_unit': 'Ha', 'lenght_unit': 'A', 'frequency_unit': 'cm^-1', 'temperature_unit': 'K', 'debug': False, 'silent': True, 'logfile': tag + '.log'}
        o.update(kw)
        return o

    def done(tag, c):
        c.export_hdf5(tag + '.hdf5')
        D, info = cli.h5(tag + '.hdf5')
        return info, {k: (v[0].tolist(), str(v[1])) for k, v in D.items()}, TIMES.sub('<time>', open(tag + '.log').read()), c.completed, c.error

    def calc(cls, text, settings):
        def go(tag):
            with open(tag + '.in', 'w') as f:
                f.write(text)
            c = cls()(settings(tag))
            yield None
            e = c.read_input(tag + '.in')
            yield e
            if e is None:
                c.report_input_data()
                yield None
                c.run()
                yield c.completed
                yield done(tag, c)
        return go

    def ha():
        from quantas.harmonic.harmonic import HACalculator
        return HACalculator

    def qha():
        from quantas.qha.qha import QHACalculator
        return QHACalculator

    def soec():
        from quantas.soec.soec import SOECCalculator
        return SOECCalculator
    q = lambda **kw: lambda tag: base(tag, **dict(dict(qha_scheme='freq', minimization='poly', kieffer=False, edeg=3, fdeg=3, eos='M', eos_function='murnaghan', prange=(0., 2., 2.),
                                                       pressure_unit='GPa'), **kw))
    A = {}
    t = sy.yaml_text
    A['py:ha'] = calc(ha, t(s1, sy.volumes(s1, 2)), lambda tag: base(tag))
    A['py:ha2'] = calc(ha, t(s2, sy.volumes(s2, 3)), lambda tag: base(tag, trange=(100., 300., 50.), temperature_unit='C'))
    A['py:habad'] = calc(ha, t(s1, sy.volumes(s1, 2)).replace('energy', 'enrgy'), lambda tag: base(tag))
    A['py:qha'] = calc(qha, t(s1, sy.volumes(s1, 6)), q())
    A['py:qha2'] = calc(qha, t(s2, sy.volumes(s2, 7)), q(qha_scheme='td', minimization='eos', eos='BM', eos_function='birchmurnaghan', prange=(0., 0., 1.), temperature_unit='C'))
    sset = lambda tag: dict(pressure_unit='GPa', debug=False, silent=True, polar=False, plotting=False, dpi=80, logfile=tag + '.log', outfig=tag)
    A['py:soec'] = calc(soec, soectext(c15.tensor('cubic', 'N', 0)), sset)
    A['py:soec2'] = calc(soec, soectext(c15.isotropic(100., 50.), None), sset)

    def look(o, names, call=()):
        out = {}
        for n in names:
            v = getattr(o, n)
            v = v(*call) if callable(v) else v
            out[n] = v.tolist() if isinstance(v, (np.ndarray, np.generic)) else {k: np.asarray(x).tolist() if not isinstance(x, (dict, list)) else str(x) for k, x in v.items()} if isinstance(v, dict) else \
                v if isinstance(v, (int, float, str, type(None))) else str(v)
        return out

    def reader(cls, fn, files, names):
        def go(tag):
            for f, x in files.items():
                with open(tag + f, 'w') as g:
                    g.write(x)
            o = cls()(tag + fn)
            yield (o.completed, None if o.error is None else o.error)
            if o.completed:
                for n in names:
                    yield look(o, [n])
                yield look(o, names)
        return go

    def qreader():
        from quantas.IO.qha_reader import QHAInputFileReader
        return QHAInputFileReader

    def sreader():
        from quantas.IO.soec_reader import SOECInputFileReader
        return SOECInputFileReader

    def crystal():
        from quantas.interfaces.crystal import CrystalPhononReader
        return CrystalPhononReader

    def crystalqha():
        from quantas.interfaces.crystal import CrystalQHAReader
        return CrystalQHAReader

    def crystalsoec():
        from quantas.interfaces.crystal import CrystalSOECReader
        return CrystalSOECReader

    def phonopy():
        from quantas.interfaces.phonopy import PhonopyReader
        return PhonopyReader

    def vasp():
        from quantas.interfaces.vasp import VASPSOECReader
        return VASPSOECReader

    def eosreader():
        from quantas.IO.eos_reader import EoSInputFileReader
        return EoSInputFileReader
    A['py:rqha'] = reader(qreader, 'r', {'r': t(s1, sy.volumes(s1, 2))}, ['volume', 'energy', 'natoms', 'jobname'])
    A['py:rqha2'] = reader(qreader, 'r', {'r': t(s2, sy.volumes(s2, 3), job='Two')}, ['volume', 'energy', 'natoms', 'jobname'])
    A['py:rsoec'] = reader(sreader, 'r', {'r': soectext(c15.tensor('cubic', 'N', 0))}, ['stiffness', 'density', 'jobname'])
    A['py:rsoec2'] = reader(sreader, 'r', {'r': soectext(c15.isotropic(100., 50.), None, 'Two')}, ['stiffness', 'density', 'jobname'])
    A['py:reos'] = reader(eosreader, 'r', {'r': 'JOB\na\nFORMAT\np v a\nDATA\n0 80 4\n1 79 3.9\n'}, ['pressure', 'volume', 'jobname'])
    A['py:reos2'] = reader(eosreader, 'r', {'r': 'FORMAT\np v\nDATA\n0 90\n1 89\n2 88.5\n'}, ['pressure', 'volume', 'jobname'])
    cut = c18.cuttable()
    names = ['natom', 'volume', 'energy', 'dim', 'qpoints', 'weights', 'qcoords', 'phonons']
    for n, cls, x in (('disp', crystal, cut['disp']), ('gamma', crystal, cut['gamma']), ('super', crystal, cut['super']), ('qha', crystalqha, cut['qha']), ('qhasup', crystalqha, cut['qhasup']),
                      ('phonopy', phonopy, cut['phonopy'])):
        A['py:i' + n] = reader(cls, x[3], x[1], names)
    A['py:isoec'] = reader(crystalsoec, 'crystal', cut['soec'][1], ['stiffness', 'density'])
    A['py:ivasp'] = reader(vasp, 'vasp', cut['vasp'][1], ['stiffness', 'density'])
    A['py:iforeign'] = reader(crystal, 'f', {'f': 'nothing\n'}, [])

    def tensor(C, rho):
        def go(tag):
            from quantas.soec.utils.soec_obj import SOEC
            o = SOEC(np.array(C), rho)
            yield None
            for k in range(2):
                yield np.asarray(o.stiffness).tolist(), np.asarray(o.compliance).tolist()
                yield float(o.young_modulus((.3, .4))), float(o.linear_compressibility((.3, .4)))
                yield float(o.shear_modulus((.3, .4, .5))), float(o.poisson_ratio((.3, .4, .5)))
        return go
    A['py:tensor'] = tensor(c15.tensor('cubic', 'N', 0), 3000.)
    A['py:tensor2'] = tensor(c15.isotropic(100., 50.), 2000.)

    def seis(C, rho, q):
        def go(tag):
            from quantas.seismic.utils.seismic_obj import Seismic
            o = Seismic(np.array(C), rho)
            yield None
            for x in (q, q[::-1], q):
                o.cartesian_direction(np.array(x))
                yield None
                yield [np.asarray(c21.get(o, n)).tolist() for n in ('phase_velocity', 'group_velocity', 'enhancement')]
        return go

    A['py:seismic'] = seis(c15.tensor('cubic', 'N', 0), 3000., (.3, .5, .8))
    A['py:seismic2'] = seis(c15.tensor('triclinic', 'N', 0), 2500., (1., 0., .2))

    def kieffer(f):
        def go(tag):
            from quantas.qha.utils.kieffer import Kieffer
            k = Kieffer(f)
            yield None
            for T in (0., 300., 1000., 300.):
                yield float(k.helmholtz(T)), float(k.entropy(T)), float(k.heat_capacity(T))
        return go
    A['py:kieffer'] = kieffer([1e12, 2e12])
    A['py:kieffer2'] = kieffer([3e12])

    def eos(name, order, V0, K):
        def go(tag):
            import quantas.eosfit.utils.pv_eos as pv
            o = getattr(pv, name)()
            yield None
            v = V0 * np.linspace(.9, 1., 8)
            p = K * (1. - v / V0) * (1. + 2. * (1. - v / V0))
            for k in range(2):
                yield np.asarray(o.guess(v, p)).tolist()
                yield np.asarray(o.fit(v, p, order=order).beta).tolist()
        return go
    A['py:eos'] = eos('BirchMurnaghan', 3, 80., 100.)
    A['py:eos2'] = eos('Vinet', 2, 60., 200.)

    def h5reader(kind, k):
        def go(tag):
            from quantas.IO.hdf5_reader import QuantasHDF5Reader
            with open(tag + '.hdf5', 'wb') as f:
                f.write(h5bytes_[kind, k])
            o = QuantasHDF5Reader(tag + '.hdf5')
            yield None
            o.read()
            yield None
            for n in ('F', 'S', 'G'):
                yield bool(o.has_data(n)), np.asarray(o.get_data(n)).tolist() if o.has_data(n) else None
        return go
    h5bytes_ = {(k, n): h5bytes(k, n) for k in ('ha', 'qha') for n in (1, 2)}
    A['py:h5'] = h5reader('ha', 1)
    A['py:h52'] = h5reader('qha', 2)
    return A


_ana = {}


def step(gen):
    try:
        return ('value', next(gen))
    except StopIteration:
        return ('end',)
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def whole(name, tag='QaQ'):
    """the analysis alone"""
    clean()
    out = []
    g = _ana[name](tag)
    with quiet():
        while True:
            out.append(step(g))
            if out[-1][0] != 'value':
                return untag(out)


def untag(x):
    """file names differ between the analyses alive together"""
    if isinstance(x, str):
        return x.replace('QaQ', 'Q').replace('QbQ', 'Q')
    if isinstance(x, dict):
        return {k: untag(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [untag(v) for v in x]
    return x


def merge(a, b, word):
    """the steps of a and b in the order of the word"""
    clean()
    g = {'a': _ana[a]('QaQ'), 'b': _ana[b]('QbQ')}
    out = {'a': [], 'b': []}
    with quiet():
        for w in word:
            out[w].append(step(g[w]))
    return untag(out['a']), untag(out['b'])


def words(n, m, switches):
    """all merges of n steps of a and m of b with at most that many changes"""
    def go(w, i, j, k):
        if i == n and j == m:
            yield w
            return
        for c, left in (('a', i < n), ('b', j < m)):
            ch = bool(w) and w[-1] != c
            if left and k + ch <= switches:
                for x in go(w + c, i + (c == 'a'), j + (c == 'b'), k + ch):
                    yield x
    return go('', 0, 0, 0)


QUICK = ['ha', 'hafew', 'qha', 'qhatd', 'soecbad', 'eos', 'eosab', 'genphonopy', 'gendisp', 'genqha', 'gencutq', 'genvasp', 'expha', 'expbad']


def cases(tier):
    prepare()
    fast = list(_made) if tier == 'thorough' else QUICK
    for n in _made:
        yield ['pairs', n, tier]
    for n in fast:
        for m in fast:
            yield ['triples', n, m, tier]
    _ana.update(analyses())
    for a in _ana:
        yield ['merges', a, tier]


def explore(chk):
    prepare()
    _ana.update(analyses())
    todo = list(_made) + list(_ana)
    for n, x in zip(todo, pmap(reference, todo)):
        if isinstance(x, Result) or not isinstance(x, dict) or 'got' not in x:
            raise RuntimeError('%s: %r' % (n, getattr(x, 'bad', x)))
        ALONE[n] = x['got']
    chk.enumerate(cases(chk.tier), run_case)


def reference(name):
    prepare()
    with scratch():
        return {'got': isolated(command if name in _made else whole, name)}


def run_case(case):
    r = Result()
    prepare()
    if not _ana:
        _ana.update(analyses())
    with scratch():
        if case[0] in ('pairs', 'triples'):
            nexts = list(_made) if case[0] == 'pairs' else [n for n in (_made if case[-1] == 'thorough' else QUICK)]
            for n in nexts + case[1:-1]:
                if n in _made:
                    alone(n)
            if case[0] == 'pairs':
                if case[2] != 'thorough' and not case[1].startswith(('soec', 'qha', 'genvasp', 'gensoec', 'exp')):
                    nexts = [n for n in nexts if n not in ('soectri', 'soecnorho', 'soecfig')]      # seconds each
                elif case[2] != 'thorough' and case[1] not in ('soec', 'soecfig', 'soectri'):
                    nexts = [n for n in nexts if n != 'soecfig']
                bad, n = isolated(tree, [case[1]], nexts, 2, None, _limit=800)
            else:
                bad, n = isolated(triple, case[1], case[2], nexts, _limit=800)
            r.steps += n
            for x in nexts:
                r.see(case[:-1], x)
            for h, why in bad:
                r.fail('history:%s:%s' % (h[-1], why.split(':')[0][:40]), 'after %s, %s gives another outcome: %s' % (', '.join(h[:-1]) or 'nothing', h[-1], why))
        else:
            a, th = case[1], case[2] == 'thorough'
            for b in list(_ana)[list(_ana).index(a):]:
                A, B = alone(a), alone(b)
                slow = 'py:soec' in (a[:7], b[:7])
                if slow and not th and not {a, b} <= {'py:ha', 'py:qha', 'py:soec', 'py:soec2', 'py:tensor', 'py:rsoec'}:
                    continue
                sw = 99 if th and not slow else 1 if slow else 3
                ws = list(words(len(A), len(B), sw))
                cap = 4000 if th else 40
                if len(ws) > cap:
                    s = sw
                    while len(ws) > cap and s > 1:
                        s -= 1
                        ws = list(words(len(A), len(B), s))
                for w in ws:
                    ga, gb = isolated(merge, a, b, w)
                    r.steps += len(w)
                    r.see(a, b, w)
                    for n, g, x in ((a, ga, A), (b, gb, B)):
                        if not eq(g, x):
                            r.fail('merge:%s' % n, '%s and %s in the order %s: %s gives another outcome: %s' % (a, b, w, n, diff(g, x)))
    return r


def triple(a, b, nexts):
    command(a)
    got = command(b)
    bad = []
    for x in nexts:
        h, n = isolated(tree, [a, b, x], nexts, 1, None)
        bad += h
    return bad, 2 + len(nexts)
