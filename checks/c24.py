"""C24: what the screen, the log file, the figures and the result file of a run
say, compared with each other over the presentation options."""
import itertools
import os
import re
import struct

import numpy as np

from mc import cli, soecrun
from mc import systems as sy
from mc.core import Result, scratch
from checks import c10, c11
from checks import c15, c18

PROPERTY = 'C24'
RULE = ('(scenario of each command: results, warnings, every kind of refusal, existing outputs x answers) x every subset of the presentation '
        'options; settings over the whole option alphabet; every number of every table, and every curve of every figure, against the result file; the counts of the input over supercells of either handedness')
ASSUMPTIONS = ['the times of the operations and the debug lines may differ between runs', 'figures are observed when they are saved (lines, labels, limits, size), '
               'not as pixels', 'the dialogue of eosfit is not part of its report']


def tensor(name, kind, seed):
    if kind == 'X':          # compressibility more negative along x than positive along y
        S = np.diag([10., 2., 30., 25., 30., 28.])
        S[0, 2] = S[2, 0] = -14.
        S[1, 2] = S[2, 1] = -.5
        return np.linalg.inv(S * 1e-3)
    return c15.tensor(name, kind, seed)


TIME = re.compile(r'(elapsed|operation|calculation|wall) time', re.I)
PROMPT = re.compile(r'\[y/N\]')


# ------------------------------------------------------------- scenarios
def ha_file(fn='in.yaml', n=3, **k):
    s = sy.Solid()
    with open(fn, 'w') as f:
        f.write(sy.yaml_text(s, sy.volumes(s, n), **k))


def soec_file(C, rho, fn='in.dat', title='Crystal 1'):
    with open(fn, 'w') as f:
        f.write(c11.text(c11.rows_of(C, 'complete', '%.6f'), title, None if rho is None else repr(float(rho))))


def put_text(fn, text):
    with open(fn, 'w') as f:
        f.write(text)


def two_q():
    return sy.Solid(nus=[[0., 0., 0., 9., 12., 14.], [3., 4., 5., 8., 11., 13.]], weights=[1, 3], gammas=1.4)


def qha_file(n=7, solid=None, energy=None):
    s = solid or sy.Solid()
    V = sy.volumes(s, n)
    put_text('in.yaml', sy.yaml_text(s, V, energy=None if energy is None else energy(s, V)))


T50 = ['-T', '0', '490', '10']
SCENES = {
    'ha:ok': lambda: (ha_file(), ['ha', 'in.yaml', '-T', '0', '300', '100']),
    'ha:units': lambda: (ha_file(eunit='eV', vunit='bohr', funit='THz'), ['ha', 'in.yaml', '--eunit', 'eV', '--vunit', 'bohr', '--funit', 'THz', '--tunit', 'C']),
    'ha:job': lambda: (ha_file(job='"Debug: é {0} {}"'), ['ha', 'in.yaml']),
    'ha:cut': lambda: (put_text('in.yaml', 'job: a\nnatom: 2\n'), ['ha', 'in.yaml']),
    'ha:yaml': lambda: (put_text('in.yaml', 'job: [\n'), ['ha', 'in.yaml']),
    'ha:folder': lambda: (os.mkdir('in.yaml'), ['ha', 'in.yaml']),
    'qha:td': lambda: (qha_file(), ['qha', 'in.yaml', '-s', 'td', '-m', 'poly', '-T', '0', '300', '100', '-P', '0', '2', '1']),
    'qha:freq': lambda: (qha_file(), ['qha', 'in.yaml', '-s', 'freq', '-m', 'poly'] + T50),
    'qha:eos': lambda: (qha_file(), ['qha', 'in.yaml', '-s', 'td', '-m', 'eos', '--eos', 'V'] + T50),
    'qha:feos': lambda: (qha_file(solid=two_q()), ['qha', 'in.yaml', '-s', 'freq', '-m', 'eos', '-T', '300', '300', '1']),
    'qha:kieffer': lambda: (qha_file(solid=two_q()), ['qha', 'in.yaml', '-a']),
    'qha:few': lambda: (qha_file(3), ['qha', 'in.yaml']),
    'qha:cut': lambda: (put_text('in.yaml', 'job: a\n'), ['qha', 'in.yaml']),
    'qha:nomin': lambda: (qha_file(energy=lambda s, V: s.E0 - s.K0 * s.V0 * (V / s.V0 - .95) ** 2), ['qha', 'in.yaml', '-m', 'poly', '--edeg', '2']),
    'qha:nofit': lambda: (qha_file(energy=lambda s, V: s.E0 - s.K0 * s.V0 * (V / s.V0 - .95) ** 2), ['qha', 'in.yaml', '-m', 'eos']),
    'qha:folder': lambda: (os.mkdir('in.yaml'), ['qha', 'in.yaml']),
    'soec:cubic': lambda: (soec_file(tensor('cubic', 'A', 0), 3000.), ['soec', 'in.dat']),
    'soec:norho': lambda: (soec_file(tensor('orthorhombic', 'A', 0), None), ['soec', 'in.dat']),
    'soec:polar': lambda: (soec_file(tensor('hexagonal', 'A', 1), 3000.), ['soec', 'in.dat', '--polar']),
    'soec:plot': lambda: (soec_file(tensor('triclinic', 'A', 1), None), ['soec', 'in.dat', '--polar', '-p', '--dpi', '40']),
    'soec:unstable': lambda: (soec_file(np.diag([100., -100., 100., 50., 50., 50.]), 3000.), ['soec', 'in.dat']),
    'soec:cut': lambda: (put_text('in.dat', 'Job\n 1 2 3\n'), ['soec', 'in.dat']),
    'soec:blank': lambda: (put_text('in.dat', '\n\n\n'), ['soec', 'in.dat']),
    'soec:singular': lambda: (soec_file(np.zeros((6, 6)), 3000.), ['soec', 'in.dat']),
    'soec:folder': lambda: (os.mkdir('in.dat'), ['soec', 'in.dat']),
}
BASE = {'ha': 'in_HA', 'qha': 'in_QHA', 'soec': 'in_SOEC'}
OLD = [None, ['n'], ['y'], [''], ['maybe', 'y'], []]           # an earlier result file and the answers typed


def run(scene, old, flags):
    """one run in a fresh folder: everything it shows and leaves"""
    kind = scene.split(':')[0]
    with scratch():
        args = SCENES[scene]()[1] + [a for f in flags for a in ((['-o', 'out'] if f == 'o' else ['-' + f]))]
        base = 'out' if 'o' in flags else BASE[kind]
        if old is not None:
            put_text(base + '.hdf5', 'earlier')
            put_text(base + '.txt', 'report of an earlier run: 1 2 3\n' * 3)
        got = cli.quantas(args, old or [])
        out = {'run': got, 'log': None, 'h5': None, 'png': {}}
        for fn in sorted(os.listdir('.')):
            if fn == base + '.txt':
                with open(fn, encoding='utf8') as f:
                    out['log'] = f.read()
            elif fn == base + '.hdf5':
                with open(fn, 'rb') as f:
                    out['h5'] = 'earlier' if f.read(7) == b'earlier' else None
                out['h5'] = out['h5'] or cli.h5(fn)
            elif fn.endswith('.png'):
                with open(fn, 'rb') as f:
                    out['png'][fn.replace(base, '<out>')] = f.read()
            elif fn not in ('in.yaml', 'in.dat'):
                out['png'][fn] = b'?'
        if out['log'] is not None:
            out['log'] = out['log'].replace(base, '<out>')
        out['screen'] = got.output.replace(base, '<out>')
        return out


def lines(text, debug=False):
    out = []
    for l in text.split('\n'):
        l = l.rstrip().replace('\r', '')
        if not l or TIME.search(l) or (debug and l.startswith('Debug: ')):
            continue
        out.append(l)
    return out


def subsequence(a, b):
    it = iter(b)
    for x in a:
        for y in it:
            if x == y:
                break
        else:
            return x
    return None


def h5_same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return (a is None) == (b is None) and isinstance(a, str) == isinstance(b, str)
    if a[1] != b[1] or sorted(a[0]) != sorted(b[0]):
        return False
    for k in a[0]:
        x, y = a[0][k], b[0][k]
        if x[1:] != y[1:] or x[0].shape != y[0].shape or not np.array_equal(x[0], y[0], equal_nan=True):
            return False
    return True


BANNER = '|    __)_  |'


def dialogue(text):
    """screen lines without the questions and the answers typed"""
    return [l for l in lines(text) if not PROMPT.search(l) and not l.startswith('Error: ') and l not in ('Aborted!',)]


def judge(r, scene, old, flags, got, plain):
    what = '%s %r %r' % (scene, old, flags)
    tag = scene.split(':')[0]
    if got['run'].crashed:
        r.fail(tag + ':crash', '%s: %s' % (what, got['run'].why()))
        return
    if got['log'] is None:
        r.fail(tag + ':nolog', '%s: no log file' % what)
        return
    log = lines(got['log'], 'd' in flags)
    screen = dialogue(got['screen'])
    if 'q' not in flags:
        full = lines(got['log'])
        if screen != full:
            miss = [x for x in full if x not in screen][:2], [x for x in screen if x not in full][:2]
            r.fail(tag + ':screen-log', '%s: only in the log %r, only on the screen %r' % ((what,) + miss))
    else:
        x = subsequence(screen, lines(got['log']))
        if x is not None:
            r.fail(tag + ':quiet-extra', '%s: the quiet screen shows %r, absent from the log' % (what, x))
        many = [l for l in dialogue(got['screen'].split(BANNER)[0]) if len(soecrun.nums(l)) >= 2]
        settings = [l for l in screen if re.match(r' - \w+: ', l) or 'Authors' in l or 'Thank you' in l or l.startswith('Job:')]
        if many or settings:
            r.fail(tag + ':quiet', '%s: the quiet screen shows %r' % (what, (many + settings)[:3]))
        if 'Debug: ' in got['screen']:
            r.fail(tag + ':quiet', '%s: debug lines on the quiet screen' % what)
        if (BANNER in got['screen']) != (BANNER in plain['screen']):
            r.fail(tag + ':quiet-error', '%s: errors are not shown' % what)
        if BANNER in plain['screen'] and screen[-1:] != dialogue(plain['screen'])[-1:]:
            r.fail(tag + ':quiet-error', '%s: the error shown is %r, %r without -q' % (what, screen[-1:], dialogue(plain['screen'])[-1:]))
    if (BANNER in got['log']) != (BANNER in got['screen']):
        r.fail(tag + ':log-error', '%s: error on the screen: %r, in the log: %r' % (what, BANNER in got['screen'], BANNER in got['log']))
    if 'd' not in flags and 'Debug: ' in got['log'] and scene != 'ha:job':
        r.fail(tag + ':debug', '%s: debug lines without -d' % what)
    want = lines(plain['log'])
    if log != want:
        r.fail(tag + ':log', '%s: only here %r, only in the plain log %r' % (what, [x for x in log if x not in want][:2], [x for x in want if x not in log][:2]))
    if not h5_same(got['h5'], plain['h5']):
        r.fail(tag + ':results', '%s: the results differ from those of the plain run' % what)
    if sorted(got['png']) != sorted(plain['png']) or any(got['png'][k] != plain['png'][k] for k in got['png']):
        r.fail(tag + ':figures', '%s: figures %r, plain run %r (or different pictures)' % (what, sorted(got['png']), sorted(plain['png'])))
    if got['run'].code != plain['run'].code:
        r.fail(tag + ':exit', '%s: exit %r, plain run %r' % (what, got['run'].code, plain['run'].code))


FLAGS = [list(f) for n in range(4) for f in itertools.combinations('qdo', n)]


def present(r, scene, n):
    old = OLD[n]
    plain = run(scene, old, [])
    for flags in FLAGS:
        got = plain if not flags else run(scene, old, flags)
        judge(r, scene, old, flags, got, plain)
        r.steps += 1
        r.see(scene, n, tuple(flags), plain['run'].code, got['screen'])
    saved = plain['h5'] is not None and plain['h5'] != 'earlier'
    said = 'Calculated data exported to <out>.hdf5' in plain['log']
    if saved != said:
        r.fail(scene.split(':')[0] + ':saved', '%s %r: results saved: %r, reported: %r' % (scene, old, saved, said))
    refused = 'Results not saved' in plain['log']
    if refused != (plain['h5'] == 'earlier' and BANNER not in plain['screen'] and plain['run'].code == 0):
        r.fail(scene.split(':')[0] + ':saved', '%s %r: "Results not saved" reported: %r' % (scene, old, refused))
    figs = sorted(re.findall(r'figure (\S+) generated', plain['log']))
    if figs != sorted(plain['png']):
        r.fail('soec:figures', '%s: figures reported %r, made %r' % (scene, figs, sorted(plain['png'])))


# -------------------------------------------------------------- settings
def block(text):
    """{section: {key: value}} of the settings shown"""
    out, sec = {}, None
    L = text.split('\n')
    for i, l in enumerate(L):
        if l.startswith('-----') and i:
            sec = L[i - 1].strip()
            out[sec] = {}
        m = re.match(r'^ - ([^:]+):\s*(.*?)\s*$', l)
        if m and sec:
            out[sec][m.group(1)] = m.group(2)
        elif not l.strip():
            sec = None
    return out


def rng(r, key, sec, want, unit):
    for k, v in zip(('min', 'max', 'step'), want):
        m = re.match(r'^(\S+)\s+(\S+)$', sec.get(k, ''))
        if not m or m.group(2) != unit or abs(float(m.group(1)) - v) > .0051:
            r.fail(key, '%s is %r, asked for %r %s' % (k, sec.get(k), v, unit))


def frequency(u):
    return 'cm^-1' if u == 'cm-1' else u


TR = {'K': [(0., 300., 100.), (298.15, 298.15, 1.), (10.25, 11., .25)], 'C': [(-50., 50., 50.), (25., 25., 1.), (-273.15, -270., .5)]}
PR = [(0., 0., 1.), (-1.5, 1.5, 1.5), (0., .75, .25)]
FORMS = {'M': 'murnaghan', 'BM': 'birchmurnaghan', 'PT': 'poiriertarantola', 'V': 'vinet'}


def letters(x):
    return re.sub('[^a-z]', '', x.lower())


def settings_ha(r, e, v, f):
    for t in ('K', 'C'):
        for T in TR[t]:
            ha_file(eunit=e, vunit=v, funit=f)
            got = cli.quantas(['ha', 'in.yaml', '--eunit', e, '--vunit', v, '--funit', f, '--tunit', t, '-T'] + [repr(x) for x in T] + ['-o', 'o'])
            r.steps += 1
            what = 'ha:settings'
            if got.crashed or got.error:
                r.fail(what, 'failed: %s %s' % (got.output[-300:], got.why()))
                continue
            common(r, 'ha', got, e, v, f, t, T, None, None)
            os.remove('o.hdf5')


def common(r, kind, got, e, v, f, t, T, p, P):
    B = block(got.output)
    key = kind + ':settings'
    try:
        rng(r, key, B['Temperature settings'], T, t)
        u = B['Measurement units']
        if P is not None:
            rng(r, key, B['Pressure settings'], P, p)
    except KeyError as x:
        r.fail(key, 'no section %s in %r' % (x, sorted(B)))
        return B
    want = {'energy': e, 'lenght': v, 'frequency': frequency(f), 'temperature': t}
    if p:
        want['pressure'] = p
    u = {('lenght' if k in ('length', 'volume') else k): w for k, w in u.items()}
    if u != want:
        r.fail(key, 'units shown %r, asked for %r' % (u, want))
    D, info = cli.h5('o.hdf5')
    scales = {a: b for a, b in re.findall(r'- (\w+) scale:\s*(\S+)', info)}
    want = {'energy': e, 'volume': v, 'frequency': frequency(f), 'temperature': t}
    if p:
        want['pressure'] = p
    if scales != want:
        r.fail(kind + ':info', 'the result file names the units %r, asked for %r' % (scales, want))
    n = int(np.floor((T[1] - T[0]) / T[2] + 1e-6)) + 1
    if D['T'][1] != t or len(D['T'][0]) != n or abs(D['T'][0][0] - T[0]) > 1e-9:
        r.fail(kind + ':grid', 'T stored %r %s, asked for %r %s' % (D['T'][0][:3], D['T'][1], T, t))
    if P is not None:
        n = int(np.floor((P[1] - P[0]) / P[2] + 1e-6)) + 1
        if D['P'][1] != p or len(D['P'][0]) != n or abs(D['P'][0][0] - P[0]) > 1e-9:
            r.fail(kind + ':grid', 'P stored %r %s, asked for %r %s' % (D['P'][0][:3], D['P'][1], P, p))
    tables(r, kind, got.output, D, e, v, t, p)
    r.see(kind, e, v, f, t, T, p, P)
    return B


# ---------------------------------------------------------------- tables
def rows(L, start):
    """numbers of the lines below a dashed line"""
    out = []
    for l in L[start:]:
        if not l.strip():
            break
        try:
            out.append([float(x) for x in l.split()])
        except ValueError:
            break
    return out


def dashes(L, i):
    while i < len(L) and not (L[i].strip() and set(L[i].strip()) <= set('- ')):
        i += 1
    return i


def off(got, want, half, rel=0.):
    """printed with a last digit of 2*half"""
    return not abs(got - want) <= half * 1.001 + rel * abs(want) if np.isfinite(want) else not (np.isnan(got) and np.isnan(want) or got == want)


KJMOL = 1000. / 6.02214076e23


def tables(r, kind, text, D, e, v, t, p):
    L = text.split('\n')
    i = [k for k, l in enumerate(L) if l.startswith('Volume and energy values')]
    if len(i) != 1:
        r.fail(kind + ':input-table', 'no table of the volumes')
        return
    j = dashes(L, i[0])
    head = ' '.join(L[i[0] + 1:j])
    if '(%s)' % e not in head or '(%s^3)' % v not in head or (p and '(%s)' % p not in head):
        r.fail(kind + ':input-head', 'table headed %r; units %r' % (head, (e, v, p)))
    got = rows(L, j + 1)
    got = [x[-2:] for x in got]
    if kind == 'ha':
        want = [[a, b] for a, b in zip(D['V'][0], D['U0'][0])]
        if len(got) != len(want) or any(len(g) != 2 or off(g[0], w[0], .5e-6) or off(g[1], w[1], 0., 1e-12) for g, w in zip(got, want)):
            r.fail('ha:input-table', 'printed %r, stored %r' % (got[:2], want[:2]))
        return
    # blocks of results
    at = [k for k, l in enumerate(L) if l.startswith('# Results at')]
    P = D['P'][0]
    if len(at) != len(P):
        r.fail('qha:blocks', '%d blocks of results for %d pressures' % (len(at), len(P)))
        return
    for n, k in enumerate(at):
        m = re.match(r'^# Results at (\S+) (\S+)$', L[k].strip())
        if not m or abs(float(m.group(1)) - P[n]) > 1e-9 or m.group(2) != p:
            r.fail('qha:blocks', 'block %d is %r, pressure %r %s' % (n, L[k], P[n], p))
        j = dashes(L, k + 2)
        head = L[j - 1]
        want = ['T (%s)' % t, 'V(T) (%s^3)' % v, 'a_V (K^-1)', 'KT (%s)' % p, 'KS (%s)' % p, 'Cp-Cv (J/mol K)']
        if [' '.join(x.split()) for x in re.findall(r'\S+ \([^)]*\)', head)] != want:
            r.fail('qha:head', 'headed %r' % head)
        tab = rows(L, j + 1)
        if len(tab) != len(D['T'][0]):
            r.fail('qha:rows', '%d rows for %d temperatures' % (len(tab), len(D['T'][0])))
            continue
        for m_, row in enumerate(tab):
            x = D['Cp-Cv'][0][m_, n] * 1e-3 * sy.E_SI[e] / (KJMOL / 1000.)       # J/(mol K)
            want = [D['T'][0][m_], D['VT'][0][m_, n], D['alphaV'][0][m_, n], D['KT'][0][m_, n], D['KS'][0][m_, n], x]
            half = [.05, .5e-6, 0., .5e-3, .5e-3, .5e-6]
            rel = [0., 0., 1e-8, 0., 0., 1e-6]
            r.steps += 1
            if len(row) != 6 or any(off(a, b, h, q) for a, b, h, q in zip(row, want, half, rel)):
                r.fail('qha:table', 'printed %r, stored %r' % (row, want))
                break


def settings_qha(r, case):
    _, scheme, mini, eos, edeg, fdeg, u, k = case
    e, v, f, t, p = u
    T, P = TR[t][k], PR[k]
    P = tuple(x * (10. if p == 'kbar' else 1.) for x in P)
    s = sy.Solid()
    V = sy.volumes(s, 8)
    put_text('in.yaml', sy.yaml_text(s, V, eunit=e, vunit=v, funit=f))
    a = ['qha', 'in.yaml', '-s', scheme, '-m', mini, '--eos', eos, '--edeg', edeg, '--fdeg', fdeg, '--eunit', e, '--vunit', v, '--funit', f, '--tunit', t, '--punit', p, '-o', 'o']
    got = cli.quantas([str(x) for x in a] + ['-T'] + [repr(x) for x in T] + ['-P'] + [repr(x) for x in P])
    r.steps += 1
    if got.crashed or got.error:
        r.fail('qha:settings', '%r failed: %s %s' % (case, got.output[-300:], got.why()))
        return
    B = common(r, 'qha', got, e, v, f, t, T, p, P)
    q = B.get('Quasi-Harmonic Approximation approach', {})
    if ('frequency' if scheme == 'freq' else 'thermodynamics') not in q.get('scheme', '') or ('frequency' if scheme != 'freq' else 'thermodynamics') in q.get('scheme', ''):
        r.fail('qha:settings', 'scheme %r, asked for %r' % (q.get('scheme'), scheme))
    if ('polynomial' if mini == 'poly' else 'Equation of State') not in q.get('volume minimization', '') or ('polynomial' if mini != 'poly' else 'Equation of State') in q.get('volume minimization', ''):
        r.fail('qha:settings', 'minimisation %r, asked for %r' % (q.get('volume minimization'), mini))
    form = letters(q.get('EoS formulation', ''))
    if mini == 'eos' and re.sub('^(third)?(order)?|(third)?(order)?$', '', form).replace('rdorder', '') != FORMS[eos]:
        r.fail('qha:settings', 'formulation %r, asked for %r' % (q.get('EoS formulation'), eos))
    if q.get("use Kieffer's approach") != 'No':
        r.fail('qha:settings', 'Kieffer %r' % q.get("use Kieffer's approach"))
    d = B.get('Polynomial fitting settings (degree)', {})
    if (d.get('energy'), d.get('frequency')) != (str(edeg), str(fdeg)):
        r.fail('qha:settings', 'degrees %r, asked for %r' % (d, (edeg, fdeg)))
    _, info = cli.h5('o.hdf5')
    m = re.search(r'thermodynamics: (\w+)', info), re.search(r'minimi[sz]a\w+:\s*(\w+)', info)
    if not all(m) or m[0].group(1) != ('frequency' if scheme == 'freq' else 'thermodynamic') or m[1].group(1) != ('polynomial' if mini == 'poly' else 'EoS'):
        r.fail('qha:info', 'the result file says %r' % info)
    static(r, got.output, s, V, e, v, p, mini, eos)


def energy_form(eos):
    def f(x, E0, K0, kp, V0):
        if eos == 'M':
            return E0 + K0 * x / kp * ((V0 / x) ** kp / (kp - 1.) + 1.) - V0 * K0 / (kp - 1.)
        if eos == 'V':
            y = (x / V0) ** (1. / 3.)
            n = 1.5 * (kp - 1.)
            return E0 + 9. * K0 * V0 / n ** 2 * (1. - (1. - n * (1. - y)) * np.exp(n * (1. - y)))
        if eos == 'PT':
            l = np.log(V0 / x)
            return E0 + K0 * V0 * (l ** 2 / 2. + (kp - 2.) * l ** 3 / 6.)
        g = ((V0 / x) ** (2. / 3.) - 1.) / 2.
        return E0 + 4.5 * K0 * V0 * g ** 2 * (1. + (kp - 4.) * g)
    return f


def fit(eos, s, V, E):
    """(E0 [J], K0 [Pa], K', V0 [m^3]) and their standard errors, fitted in reduced units"""
    from scipy.optimize import curve_fit
    a, b = s.V0, s.K0 * s.V0
    x, y = V / a, (E - s.E0) / b
    par, cov = curve_fit(energy_form(eos), x, y, [0., 1., s.kp, 1.], ftol=1e-15, xtol=1e-15)
    sc = np.array([b, s.K0, 1., a])
    return par * sc + [s.E0, 0, 0, 0], np.sqrt(np.diag(cov)) * sc, lambda z: pressure(eos, par, z / a) * s.K0


def pressure(eos, par, x):
    f = energy_form(eos)
    h = 1e-4
    d = sum(w * f(x + k * h, *par) for k, w in ((-2, 1.), (-1, -8.), (1, 8.), (2, -1.))) / (12. * h)
    return -d


def static(r, text, s, V, e, v, p, mini, eos, E=None):
    """pressures and EoS parameters reported for the static curve"""
    L = text.split('\n')
    E = s.static(V) if E is None else E
    i = [k for k, l in enumerate(L) if l.startswith('Volume and energy values')][0]
    tab = rows(L, dashes(L, i) + 1)
    PU = sy.P_SI[p]
    if len(tab) != len(V):
        r.fail('qha:input-table', '%d rows for %d volumes' % (len(tab), len(V)))
        return
    if mini == 'eos':
        par, err, P = fit(eos, s, V, E)
        Pw, tol = P(V) / PU, (2e-5 * s.K0 + .02 * err[1]) / PU
    else:
        Pw = -np.gradient(E, V) / PU
        tol = 1e-7 * s.K0 / PU
    for row, vol, en, pr in zip(tab, V, E, Pw):
        r.steps += 1
        if len(row) != 3 or off(row[1], vol / sy.L_SI[v] ** 3, .5e-6) or off(row[2], en / sy.E_SI[e], 0., 1e-11) or off(row[0], pr, .5e-3 + tol):
            r.fail('qha:input-table', 'printed %r, the input says %r' % (row, (pr, vol / sy.L_SI[v] ** 3, en / sy.E_SI[e])))
            return
    got = re.findall(r"^(E0|K0|K'|V0) = (\S+?)\((\S+)\)\s*$", text, re.M)
    if mini != 'eos':
        if got:
            r.fail('qha:eos-block', 'EoS parameters reported for a polynomial minimisation')
        return
    unit = [sy.E_SI[e], PU, 1., sy.L_SI[v] ** 3]
    if [g[0] for g in got] != ['E0', 'K0', "K'", 'V0']:
        r.fail('qha:eos-block', 'EoS parameters %r' % (got,))
        return
    for (label, a, b), x, dx, u in zip(got, par, err, unit):
        x, dx = x / u, dx / u
        dec = len(a.split('.')[1]) if '.' in a else 0
        last = 10. ** -dec
        val = float(a)
        b = float(b)
        sig = b * last if '.' not in str(b).rstrip('0').rstrip('.') else b
        r.steps += 1
        if abs(val - x) > .51 * last + .02 * dx + 3e-7 * abs(x) * (100. if label == "K'" else 10. if label == 'K0' else 1.):
            r.fail('qha:eos-value', '%s = %s(%s), the fit gives %.10g +- %.3g' % (label, a, got, x, dx))
        elif dx > 1e-7 * abs(x) and not abs(sig - dx) <= .51 * last + .02 * dx:
            r.fail('qha:eos-error', '%s = %s(%g) says +- %g, the fit gives %.10g +- %.6g' % (label, a, b, sig, x, dx))
        elif dx <= 1e-7 * abs(x) and not sig <= 1e-5 * abs(x):
            r.fail('qha:eos-error', '%s = %s(%g), the fit is exact' % (label, a, b))


def counts(r, kind, k):
    """the numbers of volumes, atoms, k-points and modes of the input"""
    sizes = [(nv, nat, w) for nv in ((1, 2, 5, 11) if kind == 'ha' else (4, 7)) for nat in (1, 2, 5) for w in ([1], [1, 3], [2, 8, 6], [1] * 9)]
    D = c18.expansions()
    for n, d in enumerate(D):
        if n % 4 != k:
            continue
        nv, nat, w = sizes[n % len(sizes)]
        s = sy.Solid(nus=[[3. + b + q for b in range(3 * nat)] for q in range(len(w))], weights=w)
        V = sy.volumes(s, nv) if nv > 1 else np.array([s.V0])
        put_text('in.yaml', sy.yaml_text(s, V, supercell=[[int(x) for x in row] for row in d]))
        got = cli.quantas([kind, 'in.yaml', '-T', '0', '10', '10', '-o', 'o'])
        if os.path.exists('o.hdf5'):
            os.remove('o.hdf5')
        r.steps += 1
        if got.crashed or got.error:
            r.fail(kind + ':counts', '%s %s' % (got.output[-300:], got.why()))
            continue
        said = {a: b for a, b in re.findall(r'^- Number of (sampled k-points|\w+)\s+(\S+)\s*$', got.output, re.M)}
        want = {'volumes': nv, 'atoms': nat, 'sampled k-points': int(round(abs(np.linalg.det(np.array(d, float))))), 'frequencies': 3 * nat * sum(w)}
        if said != {a: '%d' % b for a, b in want.items()}:
            r.fail(kind + ':counts', 'reported %r, the input holds %r (supercell %r)' % (said, want, np.array(d).tolist()))
        r.see(kind, np.array(d), nv, nat, tuple(w))


PATTERNS = [[1, -1, 1, -1, 1, -1, 1, -1], [1, 2, -3, 0, 1, -2, 1, 0], [-2, 1, 1, 0, 0, 1, 1, -2], [0, 0, 0, 5, 0, 0, 0, 0]]
AMPS = [1e-8, 1e-7, 3e-7, 1e-6, 2e-6, 3e-6, 5e-6, 7e-6, 1e-5, 2e-5, 3e-5, 4e-5, 6e-5, 8e-5]


def noise(r, eos, u, pat):
    e, v, f, t, p = u
    s = sy.Solid(V0=75., K0=160., eos='BM' if eos != 'V' else 'V')
    V = sy.volumes(s, 8)
    for a in AMPS:
        E = s.static(V) + a * sy.E_SI['Ha'] * np.array(PATTERNS[pat])
        put_text('in.yaml', sy.yaml_text(s, V, eunit=e, vunit=v, funit=f, energy=E))
        got = cli.quantas(['qha', 'in.yaml', '-m', 'eos', '--eos', eos, '--eunit', e, '--vunit', v, '--funit', f, '--punit', p, '-o', 'o'])
        if os.path.exists('o.hdf5'):
            os.remove('o.hdf5')
        if got.crashed:
            r.fail('qha:noise', got.why())
        elif 'EoS fitting parameters' in got.output:
            static(r, got.output, s, V, e, v, p, 'eos', eos, E)
        r.see(eos, u, pat, a)


# ------------------------------------------------------------------ SOEC
def soec(r, name, kind, seed, rho):
    C = tensor(name, kind, seed)
    soec_file(C, rho)
    got = cli.quantas(['soec', 'in.dat', '-o', 'o'])
    r.steps += 1
    if got.crashed or got.error:
        r.fail('soec:run', '%s %s' % (got.output[-300:], got.why()))
        return
    D, info = cli.h5('o.hdf5')
    X = soecrun.parse(got.output)
    st = soecrun.block(got.output.splitlines(), 'Stiffness matrix', 6)
    for key, a, b, half in (('stiffness', st, D['stiffness'][0], .5e-4), ('compliance', X['compliance'], D['compliance'][0], .5e-6), ('averages', X['averages'], D['averages'][0], .5e-5),
                            ('eigenvals', X['eigenvalues'], D['eigenvals'][0], .5e-5)):
        a = np.array(a if a is not None else np.nan, dtype=float)
        r.steps += a.size
        if a.shape != b.shape or not np.all(np.abs(a - b) <= half * 1.001):
            r.fail('soec:' + key, 'printed %r, stored %r' % (a[:2], b[:2]))
    for key, unit in (('stiffness', 'GPa'), ('compliance', 'TPa^-1'), ('averages', 'GPa'), ('eigenvals', 'GPa')):
        if D[key][1] != unit:
            r.fail('soec:unit', '%s is labelled %r' % (key, D[key][1]))
    m = re.search(r'^Density: (.*)$', got.output, re.M)
    want = 'not provided' if rho is None else None
    if not m or (want and m.group(1).strip() != want) or (not want and (m.group(1).split()[1:] != ['kg', 'm^-3'] or abs(float(m.group(1).split()[0]) - rho) > 1e-9)):
        r.fail('soec:density', 'density %r printed, %r given' % (m and m.group(1), rho))
    if ('Vs1' in got.output or 'V_s1' in got.output or 'wave velocities' in got.output) != (rho is not None):
        r.fail('soec:density', 'velocities reported with density %r' % rho)
    if not re.search(r'^Elastic analysis of Crystal 1$', got.output, re.M) or 'Job: Crystal 1' not in info:
        r.fail('soec:job', 'job not reported: %r' % info)
    r.see(name, kind, seed, rho)


LEGENDS = {'LC': ['positive', 'negative'], 'G': ['minimum', 'maximum'], 'Nu': ['negative', 'minimum', 'maximum'], 'waves': ['s1', 's2', 'p']}
NAMES = {'E': 'young', 'LC': 'compressibility', 'G': 'shear', 'Nu': 'poisson', 'waves': 'wave'}


def spy(figs):
    """records what a figure shows when it is saved"""
    from matplotlib.figure import Figure
    save = Figure.savefig

    def savefig(self, fname, *a, **k):
        self.canvas.draw()
        rec = {'axes': [], 'legend': None}
        for ax in self.axes:
            rec['axes'].append({'text': ' '.join([t.get_text() for t in ax.texts] + [ax.get_title(), ax.get_xlabel()]), 'polar': ax.name == 'polar', 'lim': ax.get_ylim(),
                                'lines': [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_color(), l.get_linestyle()) for l in ax.lines if l.get_visible()]})
        for g in self.legends:
            rec['legend'] = [(t.get_text(), h.get_color(), h.get_linestyle()) for t, h in zip(g.get_texts(), g.get_lines())]
        for ax in self.axes:
            g = ax.get_legend()
            if g is not None and rec['legend'] is None:
                rec['legend'] = [(t.get_text(), h.get_color(), h.get_linestyle()) for t, h in zip(g.get_texts(), g.get_lines())]
        figs[str(fname)] = rec
        return save(self, fname, *a, **k)
    return Figure, save, savefig


def figures(r, name, kind, seed, rho, dpi):
    C = tensor(name, kind, seed)
    soec_file(C, rho)
    figs = {}
    Figure, save, new = spy(figs)
    Figure.savefig = new
    try:
        got = cli.quantas(['soec', 'in.dat', '--polar', '-p', '--dpi', str(dpi)])
    finally:
        Figure.savefig = save
    r.steps += 1
    if got.crashed or got.error:
        r.fail('plot:run', '%s %s' % (got.output[-300:], got.why()))
        return
    D, _ = cli.h5('in_SOEC.hdf5')
    keys = ['E', 'LC', 'G', 'Nu'] + (['waves'] if rho is not None else [])
    if sorted(figs) != sorted('in_SOEC_%s.png' % k for k in keys):
        r.fail('plot:names', 'figures %r' % sorted(figs))
        return
    for k in keys:
        fn = 'in_SOEC_%s.png' % k
        with open(fn, 'rb') as f:
            head = f.read(24)
        w, h = struct.unpack('>II', head[16:24])
        if head[:8] != b'\x89PNG\r\n\x1a\n' or (w, h) != (18 * dpi, 6 * dpi):
            r.fail('plot:size', '%s is %d x %d at %d dpi' % (fn, w, h, dpi))
        rec = figs[fn]
        seen = []
        for ax in rec['axes']:
            m = re.search(r'\((\w\w)\)', ax['text'])
            if not ax['polar'] or not m or NAMES[k] not in ax['text'].lower():
                r.fail('plot:label', '%s: a plot is labelled %r' % (fn, ax['text']))
                continue
            seen.append(m.group(1))
            d = D['polar_%s_%s' % (k, m.group(1))][0]
            L = ax['lines']
            if len(L) != d.shape[1] - 1:
                r.fail('plot:curves', '%s (%s): %d curves for %d columns' % (fn, m.group(1), len(L), d.shape[1] - 1))
                continue
            order = list(range(len(L)))
            if rec['legend']:
                # the legend says which curve is which
                order = []
                for word in LEGENDS[k]:
                    hit = [(c, s) for t, c, s in rec['legend'] if word in t.lower().replace('{', '').replace('}', '').replace('_', '').replace('$', '')]
                    if word == 'p' and len(hit) != 1:
                        hit = [(c, s) for t, c, s in rec['legend'] if 's' not in t.lower()]
                    idx = [i for i, l in enumerate(L) if hit and (l[2], l[3]) == hit[0]]
                    if len(hit) != 1 or len(idx) != 1:
                        r.fail('plot:legend', '%s: legend %r' % (fn, rec['legend']))
                        order = list(range(len(L)))
                        break
                    order.append(idx[0])
            elif len(L) > 1:
                r.fail('plot:legend', '%s has no legend' % fn)
            for col, i in enumerate(order):
                x, y = L[i][:2]
                r.steps += len(x)
                if len(x) != len(d) or not np.allclose(x, np.radians(d[:, 0]), atol=1e-9) or not np.allclose(y, d[:, col + 1], rtol=1e-9, atol=1e-12):
                    r.fail('plot:data', '%s (%s): the curve of column %d is not the stored one' % (fn, m.group(1), col + 1))
            lo, hi = ax['lim']
            tol = 1e-9 * (abs(lo) + abs(hi))
            if d[:, 1:].max() > hi + tol or d[:, 1:].min() < lo - tol:
                r.fail('plot:limits', '%s (%s): values from %g to %g shown from %g to %g' % (fn, m.group(1), d[:, 1:].min(), d[:, 1:].max(), lo, hi))
        if sorted(seen) != ['xy', 'xz', 'yz']:
            r.fail('plot:planes', '%s shows %r' % (fn, seen))
        r.see(name, kind, seed, rho, dpi, k)


# ---------------------------------------------------------------- eosfit
SESSIONS = [['v', '', '', 'n', 'n', '', 'n', 'n', 'n'], ['a', '2', '3', 'n', 'n', '', 'y', 'y', 'y', '1', '2', 'n', 'n', '', 'n', 'n', 'n'],
            ['v', '4', '4', 'y', '', '5', '', '', 'y', 'n', 'y', 'n', 'n', '', 'n', 'n', 'y', 'a', '', '', 'n', 'n', '', 'n', 'n', 'n']]


def eosfit(r, kind, n, outfile):
    d = c10.write(kind)
    answers = c10.full({k: v for k, v in d.items()}, []) if n < 0 else SESSIONS[n]
    got = cli.quantas(['eosfit', 'in.dat'] + (['-o', 'out'] if outfile else []), answers)
    r.steps += 1
    fn = 'out.log' if outfile else 'in.log'
    if got.crashed or not os.path.exists(fn):
        r.fail('eosfit:run', '%r: %s %s' % (answers, got.output[-300:], got.why()))
        return
    with open(fn, encoding='utf8') as f:
        log = f.read()
    x = subsequence(lines(log), lines(got.output))
    if x is not None:
        r.fail('eosfit:log', '%r: the log holds %r, not shown on the screen there' % (answers, x))
    a, b = c10.reports(log), c10.reports(got.output)
    if repr(a) != repr(b) or (not b and got.code == 0):
        r.fail('eosfit:reports', '%r: %d fits in the log, %d on the screen (or different)' % (answers, len(a), len(b)))
    for l in lines(got.output):
        if ('+/-' in l or 'weighted' in l or 'Authors' in l or 'Thank you' in l or 'Error' in l and 'Error: ' not in l) and l not in lines(log):
            r.fail('eosfit:missing', '%r: %r is not in the log' % (answers, l))
    for f, rep in zip(c10.model(d, answers)[0], a):
        bad = c10.differs(f, rep)
        if bad:
            r.fail('eosfit:' + bad[0], '%r: %s' % (answers, bad[1]))
    # the data of the input
    L = log.split('\n')
    i = [k for k, l in enumerate(L) if l.split()[:2] == ['P', '(GPa)']]
    tab = []
    for l in L[dashes(L, i[0]) + 1:] if i else ():
        if not l.strip():
            break
        tab.append(l.split())
    for row, (m, cell) in ((row, x) for k, row in enumerate(tab) for x in enumerate(row)):
        key = ('p', 'v', 'a', 'b', 'c')[m] if m < 5 else None
        k = tab.index(row)
        ok = (cell == '--') if key not in d else k < len(d[key]) and cell != '--' and not off(float(cell), d[key][k], .5e-3 if key == 'p' else .5e-5)
        if not ok or len(row) != 5:
            r.fail('eosfit:data', 'row %d of the data shown is %r (%s)' % (k, row, key))
    if len(tab) != len(d['p']):
        r.fail('eosfit:data', '%d rows shown for %d points' % (len(tab), len(d['p'])))
    found = sorted(re.findall(r'Found weights for (\S+)', log))
    want = sorted({'p': 'pressure', 'v': 'volume'}.get(k[5:], k[5:] + '-axis') for k in d if k.startswith('sigma'))
    if found != want:
        r.fail('eosfit:data', 'weights reported %r, given %r' % (found, want))
    r.see(kind, n, outfile, log)


def refused(r, text, outfile):
    put_text('in.dat', text)
    got = cli.quantas(['eosfit', 'in.dat'] + (['-o', 'out'] if outfile else []))
    r.steps += 1
    with open('out.log' if outfile else 'in.log', encoding='utf8') as f:
        log = f.read()
    if got.crashed or BANNER not in got.output:
        r.fail('eosfit:refused', '%r: %s %s' % (text, got.output[-300:], got.why()))
    elif lines(log) != lines(got.output):
        r.fail('eosfit:refused', '%r: screen and log differ' % text)
    r.see(text, outfile)


UNITS = [('Ha', 'A', 'cm-1', 'K', 'GPa'), ('eV', 'A', 'THz', 'K', 'kbar'), ('Ry', 'bohr', 'Hz', 'C', 'kbar')]


def cases(tier):
    deep = tier == 'thorough'
    for name, kind, seed in [('cubic', 'A', 0), ('orthorhombic', 'L', 1), ('triclinic', 'A', 0), ('orthorhombic', 'X', 0), ('hexagonal', 'A', 1), ('monoclinic', 'L', 0), ('trigonal', 'N', 0)][:None if deep else 6]:
        for rho, dpi in ((3000., 40), (None, 30)) if deep or name != 'cubic' else ((3000., 40), (3000., 7), (None, 80)):
            yield ['plot', name, kind, seed, rho, dpi]
    for scene in SCENES:
        for n in range(len(OLD)):
            if scene.startswith('soec') and not deep and n > 2:
                continue
            yield ['present', scene, n]
    for name in ('cubic', 'hexagonal', 'orthorhombic', 'monoclinic', 'triclinic') + (('trigonal', 'tetragonal') if deep else ()):
        for kind in 'AL' if not deep else 'NAL':
            for rho in (2500., None, 123.456789, .75):
                yield ['soec', name, kind, 1, rho]
    for e in ('Ha', 'eV', 'Ry'):
        for v in ('A', 'bohr'):
            for f in ('cm-1', 'THz', 'Hz'):
                yield ['ha', e, v, f]
    for scheme, mini in itertools.product(('freq', 'td'), ('poly', 'eos')):
        for eos in ('M', 'BM', 'PT', 'V') if mini == 'eos' else ('BM',):
            for u in (UNITS if not deep else list(itertools.product(('Ha', 'eV', 'Ry'), ('A', 'bohr'), ('cm-1', 'THz'), 'KC', ('GPa', 'kbar')))):
                for edeg, fdeg in itertools.product((2, 3, 4, 5), (2, 3)) if u == UNITS[0] else ((3, 3), (4, 2)):
                    for k in range(3):
                        yield ['qha', scheme, mini, eos, edeg, fdeg, list(u), k]
    for eos in ('M', 'BM', 'PT', 'V'):
        for u in UNITS:
            for pat in range(len(PATTERNS)):
                yield ['noise', eos, list(u), pat]
    for kind in ('va', 'all'):
        for n in range(len(SESSIONS)):
            for o in (0, 1):
                yield ['eosfit', kind, n, o]
    for n in range(5):
        yield ['refused', n]
    for kind in ('ha', 'qha'):
        for k in range(4):
            yield ['counts', kind, k]


BAD = ['', 'JOB\nx\n', 'JOB\nx\nFORMAT\np v\nDATA\n1 2 3\n', 'JOB\nx\nFORMAT\nv\nDATA\n1\n2\n', 'FORMAT\np v\nDATA\n1 a\n']


def run_case(case):
    r = Result()
    kind = case[0]
    if kind == 'present':
        present(r, case[1], case[2])
        return r
    with scratch():
        if kind == 'plot':
            figures(r, *case[1:])
        elif kind == 'soec':
            soec(r, *case[1:])
        elif kind == 'ha':
            settings_ha(r, *case[1:])
        elif kind == 'qha':
            settings_qha(r, case[:6] + [tuple(case[6]), case[7]])
        elif kind == 'counts':
            counts(r, case[1], case[2])
        elif kind == 'noise':
            noise(r, case[1], case[2], case[3])
        elif kind == 'eosfit':
            eosfit(r, *case[1:])
        elif kind == 'refused':
            for o in (0, 1):
                refused(r, BAD[case[1]], o)
    return r
