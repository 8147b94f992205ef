"""C20 damaged inputs: every truncation, lost / doubled / exchanged line and every
corrupted token of small inputs of every command.  An independent reading of the
damaged file says what it still defines; the command must refuse it or give the
results of the same content written afresh."""
import itertools
import math
import os
import re

import h5py
import numpy as np
import yaml

from checks import c10, c18, c19
from mc import cli
from mc import systems as sy
from mc.core import Result, Timeout, horizon, isolated, scratch

PROPERTY = 'C20'
RULE = ('per command and input layout: cut at every byte, every line lost / emptied / doubled / exchanged with the next, every token replaced by the corruption alphabet, '
        'binary bytes at every position, foreign files; result files cut at bytes over their length, each dataset and attribute lost or of another kind; non-trivial: damage that changes the outcome')
ASSUMPTIONS = ['a damaged file may always be refused, unless its content is the original one',
               'what a text still defines is what YAML, or the documented columns, say']

TOKENS = ['abc', 'nan', '.nan', '.inf', '-1', '1.5', '0', '12a', '75,3', '[1, 2]', '"7 8"', "''", '~', '*****', '1e400', '2 3', 'yes', '-', ':', '#', '{', '\t', '\u00e9']


class Bad(Exception):
    pass


# ---- what a file defines
def num(x):
    if isinstance(x, bool) or x is None or isinstance(x, (list, dict)):
        raise Bad('number %r' % (x,))
    try:
        v = float(x)
    except (TypeError, ValueError, OverflowError):
        raise Bad('number %r' % (x,))
    if not math.isfinite(v):
        raise Bad('number %r' % (x,))
    return v


def nums(x):
    """a list of numbers; a text of numbers, alone or in a list, is one too"""
    if isinstance(x, str):
        x = x.split()
    elif isinstance(x, list) and len(x) == 1 and isinstance(x[0], str):
        x = x[0].split()
    elif not isinstance(x, list):
        x = [x]
    if not x:
        raise Bad('empty')
    return [num(v) for v in x]


def phonons(data):
    """volume, energy, weights, freq, natom, supercell, job"""
    try:
        d = yaml.safe_load(data.decode('utf8'))
    except Exception as e:
        raise Bad(str(e))
    if not isinstance(d, dict):
        raise Bad('no mapping')
    for k in ('natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon'):
        if k not in d:
            raise Bad(k)
    nat, nq = num(d['natom']), num(d['qpoints'])
    V, E = nums(d['volume']), nums(d['energy'])
    if nat < 1 or nat != int(nat) or len(V) != len(E) or min(V) <= 0:
        raise Bad('numbers')
    if not isinstance(d['phonon'], list) or len(d['phonon']) != nq:
        raise Bad('q-points')
    W, F = [], []
    for q in d['phonon']:
        if not isinstance(q, dict) or 'weight' not in q or not isinstance(q.get('band'), list) or len(q['band']) != 3 * nat:
            raise Bad('q-point')
        W.append(num(q['weight']))
        rows = []
        for b in q['band']:
            if not isinstance(b, dict) or 'frequency' not in b:
                raise Bad('band')
            rows.append(nums(b['frequency']))
            if len(rows[-1]) != len(V):
                raise Bad('frequencies')
        F.append(rows)
    if min(W) < 0 or sum(W) <= 0:
        raise Bad('weights')
    S = d['supercell']
    if not isinstance(S, list) or len(S) != 3 or any(not isinstance(x, list) or len(x) != 3 for x in S):
        raise Bad('supercell')
    S = [[num(v) for v in x] for x in S]
    return dict(natom=int(nat), V=V, E=E, W=W, F=F, S=S)


def phonons_text(c):
    """the same content, written afresh (JSON is YAML)"""
    import json
    f = lambda x: float(x)
    return json.dumps(dict(job='Again', natom=c['natom'], supercell=c['S'], qpoints=len(c['W']), volume=[f(v) for v in c['V']], energy=c['E'],
                           phonon=[{'q-position': [0., 0., 0.], 'weight': w, 'band': [{'frequency': b} for b in F]} for w, F in zip(c['W'], c['F'])])).encode()


def finite(t):
    try:
        return math.isfinite(float(t))
    except ValueError:
        return False


def tensor(data):
    L = re.split('\r\n|\r|\n', data.decode('utf8', 'replace'))          # the line ends of text files
    if L and L[-1] == '':
        L.pop()
    if not L or not L[0].split():
        raise Bad('first line')
    start = 0 if all(finite(t) for t in L[0].split()) else 1
    rows = [l.split() for l in L[start:start + 6]]
    form = [len(x) for x in rows]
    if form not in ([6] * 6, [6, 5, 4, 3, 2, 1], [1, 2, 3, 4, 5, 6]) or not all(finite(t) for x in rows for t in x):
        raise Bad('matrix')
    C = np.zeros((6, 6))
    for i, x in enumerate(rows):
        x = [float(t) for t in x]
        if form == [6] * 6:
            C[i] = x
        elif form[0] == 6:
            C[i, i:] = C[i:, i] = x
        else:
            C[i, :i + 1] = C[:i + 1, i] = x
    if np.linalg.norm(C - C.T) > 1e-3:
        raise Bad('not symmetric')
    rest = [l.split() for l in L[start + 6:] if l.split()]
    d = 0.
    if rest:
        if not finite(rest[0][0]):
            raise Bad('density')
        d = float(rest[0][0])
    return dict(C=C, d=d)


def tensor_text(c):
    return ('Again\n' + '\n'.join(' '.join(repr(float(v)) for v in x) for x in c['C']) + '\n%r\n' % c['d']).encode()


COLS = {'p': 'p', 'v': 'v', 'a': 'a', 'b': 'b', 'c': 'c', 'sigmap': 'sigmap', 'sigp': 'sigmap', 'sigmav': 'sigmav', 'sigv': 'sigmav', 'sigmaa': 'sigmaa', 'siga': 'sigmaa',
        'sigmab': 'sigmab', 'sigb': 'sigmab', 'sigmac': 'sigmac', 'sigc': 'sigmac'}


def eos(data):
    L = [l for l in re.split('\r\n|\r|\n', data.decode('utf8', 'replace')) if l.strip() and l.strip()[0] != '#']
    fmt, rows, i, found = {}, [], 0, False
    while i < len(L):
        k = L[i].split()[0].lower()
        i += 1
        if k == 'job':
            i += 1
        elif k == 'format':
            if i < len(L):
                for n, c in enumerate(L[i].split()):
                    if c.lower() in COLS:
                        fmt[COLS[c.lower()]] = n
            i += 1
        elif k == 'data':
            found = True
            if 'p' not in fmt or not any(c in fmt for c in 'vabc'):
                raise Bad('format')
            while i < len(L):
                t = L[i].split()
                i += 1
                try:
                    rows.append({c: float(t[n]) for c, n in fmt.items()})
                except (ValueError, IndexError):
                    raise Bad('row')
    if not found or not rows:
        raise Bad('no data')
    if any(not math.isfinite(v) for x in rows for v in x.values()):
        raise Bad('not finite')
    return dict(cols=sorted(fmt), rows=rows)


def eos_text(c):
    return ('JOB\nAgain\nFORMAT\n%s\nDATA\n' % ' '.join(c['cols']) + ''.join(' '.join(repr(x[k]) for k in c['cols']) + '\n' for x in c['rows'])).encode()


# ---- inputs
def inputs():
    s1 = sy.Solid(nus=[[0., 9., 12.]])
    s2 = sy.Solid(nus=[[0., 9., 12.], [4., 8., 11.]], weights=[1., 2.])
    out = {}
    V = sy.volumes(s1, 5)
    yt = lambda s, v: sy.yaml_text(s, v, fmt='%.8g').encode()
    out['ha1'] = ('ha', yt(s1, sy.volumes(s1, 2)[:1]), [])
    out['ha2'] = ('ha', yt(s2, sy.volumes(s2, 2)), [])
    out['hatext'] = ('ha', re.sub(r'(volume|energy|frequency): \[ (.*?) \]', lambda m: '%s: ["%s"]' % (m.group(1), m.group(2).replace(',', ' ')), yt(s1, sy.volumes(s1, 2)).decode()).encode(), [])
    out['qha'] = ('qha', yt(s1, V), ['-m', 'poly', '-T', '300', '300', '1'])
    out['qhaeos'] = ('qha', yt(s1, V), ['-m', 'eos', '-s', 'td', '-T', '300', '300', '1'])
    rows = lambda n: [['%.1f' % (200. * (i == j) + 60. + 10 * (i == j) * (i < 3) if i < 3 and j < 3 else 70. * (i == j)) for j in n(i)] for i in range(6)]
    for form, n in (('upper', lambda i: range(i, 6)), ('lower', lambda i: range(i + 1)), ('full', lambda i: range(6))):
        out['soec' + form] = ('soec', ('job\n' + '\n'.join(' '.join(x) for x in rows(n)) + '\n3000.\n').encode(), [])
    out['soecbare'] = ('soec', ('\n'.join(' '.join(x) for x in rows(lambda i: range(i, 6))) + '\n').encode(), [])
    data = ''.join('%.2f %.3f %.4f %.2f\n' % (p, 80. - p * .7 + p * p * .02, 4.3 - .012 * p + 2e-4 * p * p, .05) for p in range(6))
    out['eos'] = ('eosfit', ('JOB\nx\nFORMAT\nP V a sigmaP\nDATA\n' + data).encode(), [])
    out['eosv'] = ('eosfit', ('# c\nFORMAT\nP V\nDATA\n' + ''.join(' '.join(l.split()[:2]) + '\n' for l in data.strip().split('\n'))).encode(), [])
    return out


PARSE = {'ha': (phonons, phonons_text), 'qha': (phonons, phonons_text), 'soec': (tensor, tensor_text), 'eosfit': (eos, eos_text)}
TAG = c19.TAG
FIT = {'v': ['v', '2', '2', '', 'n', 'n', 'n', 'n', 'n'], 'a': ['a', '2', '2', '', 'n', 'n', 'n', 'n', 'n']}


def outcome(cmd, data, opts, fn='in'):
    """what the command makes of a file: ('ok', results) / ('refused',) / ('crash', why) / ..."""
    for f in os.listdir('.'):
        os.remove(f)
    with open(fn, 'wb') as f:
        f.write(data)
    try:
        with horizon(30):
            run = cli.quantas([cmd, fn] + list(opts), ['v', '2', '2', ''] + ['n'] * 6 if cmd == 'eosfit' else [])
    except Timeout:
        return ('hang', 'no end in 30 s')
    if run.crashed:
        return ('hang' if isinstance(run.exc, Timeout) else 'crash', run.why())
    res = fn + TAG.get(cmd, '') + '.hdf5'
    if cmd == 'eosfit':
        if run.error:
            return ('refused', '', run.output[-200:]) if 'Citation' not in run.output else ('partial', run.output[-600:])
        return ('ok', report(run.output))
    if run.error:
        return ('refused', '', run.output[-300:]) if not os.path.exists(res) else ('partial', 'error reported, and results written')
    if not os.path.exists(res):
        return ('nothing', run.output[-400:])
    D = cli.h5(res)[0]
    return ('ok', {k: v[0] for k, v in D.items()})


def report(t):
    """the lines of the session that hold numbers, without the title"""
    return [l.rstrip() for l in t.split('\n') if re.search(r'\d', l) and 'uantas' not in l and 'job' not in l.lower() and 'in' != l.strip()]


def same(a, b):
    if a[0] != 'ok' or b[0] != 'ok':
        return a[0] == b[0]
    a, b = a[1], b[1]
    if isinstance(a, list):
        return a == b
    return sorted(a) == sorted(b) and all(a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=1e-8, atol=1e-9 * np.max(np.abs(np.nan_to_num(b[k])), initial=1e-30), equal_nan=True) for k in a)


def damages(data, tier, few=False):
    """(what, damaged bytes)"""
    n = len(data)
    tokens = ['abc', 'nan', '1.5', '1e400', '*****', ''] if few else TOKENS
    for i in range(n):
        yield 'cut', data[:i]
    for i in range(1, n, 1 if tier == 'thorough' else 3):
        yield 'head', data[i:]
    L = data.decode('utf8').split('\n')
    J = lambda x: '\n'.join(x).encode('utf8')
    for i in range(len(L)):
        yield 'lost', J(L[:i] + L[i + 1:])
        yield 'empty', J(L[:i] + [''] + L[i + 1:])
        yield 'twice', J(L[:i + 1] + L[i:])
        for j in range(i + 2, len(L) + 1):
            yield 'lostblock', J(L[:i] + L[j:])
        if i + 1 < len(L):
            yield 'swap', J(L[:i] + [L[i + 1], L[i]] + L[i + 2:])
            yield 'joined', J(L[:i] + [L[i] + ' ' + L[i + 1]] + L[i + 2:])
        for g in ('garbage', 'a b c', '\t', '- x', 'x: y', '}', '1 2 3', '\x00\x01', '# ' + L[i], '  ' + L[i], L[i].lstrip(), L[i] + ' 7', L[i] + ' x', '...', '---'):
            yield 'line', J(L[:i] + [g] + L[i + 1:])
        toks = list(re.finditer(r'[^\s,\[\]]+', L[i]))
        pick = toks if tier == 'thorough' or len(toks) <= 3 else [toks[0], toks[-1]] if few else [toks[0], toks[1], toks[-1]]
        for m in pick:
            for t in tokens:
                yield 'token', J(L[:i] + [L[i][:m.start()] + t + L[i][m.end():]] + L[i + 1:])
            yield 'losttoken', J(L[:i] + [L[i][:m.start()] + L[i][m.end():]] + L[i + 1:])
        for ch in '[],:-':
            for k in [x for x, c in enumerate(L[i]) if c == ch]:
                yield 'lostchar', J(L[:i] + [L[i][:k] + L[i][k + 1:]] + L[i + 1:])
    for i in range(0, n, 1 if tier == 'thorough' else 4):
        yield 'byte', data[:i] + b'\xff' + data[i + 1:]
        yield 'byte', data[:i] + b'\0' + data[i + 1:]
    yield 'crlf', data.replace(b'\n', b'\r\n')
    yield 'cr', data.replace(b'\n', b'\r')
    yield 'bom', b'\xef\xbb\xbf' + data
    yield 'utf16', data.decode().encode('utf16')
    for x in c18.FOREIGN.values():
        yield 'foreign', x


def equal(a, b):
    if a is None or b is None:
        return False
    return all(np.array_equal(a[k], b[k]) if k == 'C' else a[k] == b[k] for k in a)


def define(cmd, data):
    try:
        return PARSE[cmd][0](data)
    except Bad:
        return None


def damaged(r, name, part, parts, tier):
    cmd, data, opts = inputs()[name]
    orig = define(cmd, data)
    ref = outcome(cmd, data, opts)
    if ref[0] != 'ok':
        r.fail(name + ':original', '%r\n%s' % (ref, data.decode()))
        return
    seen, fresh = set(), {}
    for n, (what, t) in enumerate(d for d in damages(data, tier, cmd == 'soec' and name != 'soecupper' and tier != 'thorough') if not (d[1] in seen or seen.add(d[1]))):
        if n % parts != part:
            continue
        c = define(cmd, t)
        got = outcome(cmd, t, opts)
        r.steps += 1
        r.see(name, t, got[0])
        show = '%s\n%r' % (what, t.decode('utf8', 'replace'))
        if got[0] not in ('ok', 'refused'):
            r.fail('%s:%s:%s' % (cmd, what, got[0]), '%s\n%s' % (got[1], show))
        elif got[0] == 'refused':
            if equal(c, orig) and what in ('cut', 'twice', 'empty', 'crlf', 'lost', 'swap') and not strange(t):
                r.fail('%s:%s:refused' % (cmd, what), 'all the data are there, refused (%s)\n%s' % (got[2], show))
        elif c is None:
            r.fail('%s:%s:accepted' % (cmd, what), 'results for a file that does not define them\n%s' % show)
        else:
            key = PARSE[cmd][1](c)
            if equal(c, orig):
                want = ref
            elif key in fresh:
                want = fresh[key]
            else:
                want = fresh[key] = outcome(cmd, key, opts)
            if not same(got, want):
                r.fail('%s:%s:results' % (cmd, what), 'not the results of the same content written afresh (%s): %s\n%s' % (want[0], diff(got, want), show))


def strange(t):
    return t[:1] == b'\n'          # an empty first line: refused in SOEC files, by an existing test


def diff(a, b):
    if a[0] != b[0]:
        return '%r / %r' % (a, b)
    if isinstance(a[1], list):
        return repr([(x, y) for x, y in itertools.zip_longest(a[1], b[1]) if x != y][:3])
    return repr([(k, a[1].get(k), b[1].get(k)) for k in set(a[1]) | set(b[1]) if k not in a[1] or k not in b[1] or not same(('ok', {k: a[1][k]}), ('ok', {k: b[1][k]}))][:2])


# ---- result files
KEY = {'ha': 'F', 'qha': 'G', 'soec': 'E'}


def resultfile(kind):
    c19.put('r', c19.text_of(kind))
    c19.invoke([kind, 'r'] + (['--polar'] if kind == 'soec' else []), [])
    return open('r%s.hdf5' % TAG[kind], 'rb').read()


def exported(kind, key, fn='x.hdf5'):
    """outcome of an export: ('ok', text) / ('refused',) / ('crash', why) ..."""
    for f in os.listdir('.'):
        if f.endswith('.dat'):
            os.remove(f)
    before = open(fn, 'rb').read()
    try:
        with horizon(20):
            run = cli.quantas(['export', kind, fn], [key, 'n'])
    except Timeout:
        return ('hang', '')
    if open(fn, 'rb').read() != before:
        return ('changed', 'the result file was changed')
    made = [f for f in os.listdir('.') if f.endswith('.dat')]
    if run.crashed:
        return ('crash', run.why())
    if run.error:
        return ('refused', run.output[-200:]) if not made else ('partial', repr(made))
    if not made:
        # a quantity that is not there: asked again until the answers end
        return ('asked', run.output[-300:])
    return ('ok', open(made[0]).read())


def results(r, kind, part, parts, tier):
    data = resultfile(kind)
    keys = {'ha': c17keys('ha'), 'qha': c17keys('qha'), 'soec': ['E', 'LC', 'G', 'Nu', 'waves']}[kind]
    with open('x.hdf5', 'wb') as f:
        f.write(data)
    ref = {k: exported(kind, k) for k in keys}
    assert all(v[0] == 'ok' for v in ref.values()), ref
    kk = KEY[kind]

    def attempt(t, what, key=kk, exact=False):
        with open('x.hdf5', 'wb') as f:
            f.write(t)
        got = isolated(exported, kind, key)
        r.steps += 1
        r.see(kind, what, key, got[0])
        if got[0] not in ('ok', 'refused', 'asked'):
            r.fail('export:%s:%s' % (what.split()[0], got[0]), '%s of %s, export of %s: %s' % (what, kind, key, got[1]))
        elif exact and got[0] != 'refused':
            r.fail('export:%s:accepted' % what.split()[0], '%s of %s: %r' % (what, kind, got[0]))
        elif got[0] == 'ok' and what.startswith(('dataset', 'attribute')) and got[1] != ref[key][1]:
            r.fail('export:%s:values' % what.split()[0], '%s of %s: the table of %s is another one: %s' % (what, kind, key, got[1][:300]))
        return got
    n = len(data)
    cuts = sorted(set(range(0, min(n, 2048), 1 if tier == 'thorough' else 16)) | set(range(0, n, 64 if tier == 'thorough' else max(64, n // 200))) | set(range(n - 16, n)))
    for i in cuts[part::parts]:
        attempt(data[:i], 'cut at %d' % i, exact=True)
    if part == 0:
        for name, x in c18.FOREIGN.items():
            attempt(x, 'foreign ' + name, exact=True)

        def change(f):
            with open('y.hdf5', 'wb') as g:
                g.write(data)
            with h5py.File('y.hdf5', 'a') as g:
                f(g)
            return open('y.hdf5', 'rb').read()
        with h5py.File('x.hdf5', 'w') as g:
            pass
        attempt(open('x.hdf5', 'rb').read(), 'foreign HDF5', exact=True)
        with open('x.hdf5', 'wb') as f:
            f.write(data)
        with h5py.File('x.hdf5', 'r') as g:
            names = {k: list(v.attrs) for k, v in g.items()}
        attempt(change(lambda g: g.attrs.__delitem__('info')), 'info', exact=True)
        attempt(change(lambda g: [g.__delitem__(k) for k in names if k not in ('T', 'V', 'P', 'stiffness')]), 'foreign none left', exact=True)
        for k in names:
            for key in keys:
                attempt(change(lambda g: g.__delitem__(k)), 'dataset %s lost' % k, key)

            def group(g):
                del g[k]
                g.create_group(k)

            def scalar(g):
                del g[k]
                g[k] = 1.

            def texts(g):
                a = dict(g[k].attrs)
                del g[k]
                g[k] = 'text'
                g[k].attrs.update(a)

            def short(g):
                a, v = dict(g[k].attrs), g[k][()]
                del g[k]
                g[k] = v[:-1] if v.ndim else v
                g[k].attrs.update(a)
            for f, w in ((group, 'a group'), (scalar, 'a number'), (texts, 'a text'), (short, 'shorter')):
                for key in (kk, k.split('_')[1] if kind == 'soec' and '_' in k else k):
                    if key in keys:
                        attempt(change(f), 'object %s is %s' % (k, w), key)
            for a in names[k]:
                for key in set((kk, k)):
                    if key in keys and a == 'unit':
                        attempt(change(lambda g: g[k].attrs.__delitem__(a)), 'unit of %s lost' % k, key)
        for other in ('ha', 'qha', 'soec'):
            if other != kind:
                attempt(resultfile(other), 'foreign %s results' % other, exact=True)


def c17keys(kind):
    from checks import c17
    return c17.HA_KEYS if kind == 'ha' else c17.QHA_KEYS


# ---- outputs of other programs
def outputs(r, name, part, parts, tier):
    args, files, exp, fn = c18.cuttable()[name]
    c18.put(files)
    L = files[fn].split('\n')
    for i in range(part, len(L), parts):
        old = L[i]
        alt = ['', 'garbage', old + ' x', '  ' + old, old[1:], old.replace('.', ','), '\x00' + old]
        toks = list(re.finditer(r'\S+', old))
        for m in toks if tier == 'thorough' or len(toks) <= 4 else toks[:2] + toks[-2:]:
            for t in ('*****', 'NaN', 'x', ''):
                alt.append(old[:m.start()] + t + old[m.end():])
        if i + 1 < len(L):
            alt.append(L[i + 1] + '\n' + old + '\x01')
        if tier != 'thorough' and args[0] == 'ha' and len(L) > 60:
            alt = [a for n, a in enumerate(alt) if (n + i) % 3 == 0]
        for t in dict.fromkeys(alt):
            new = L[:i] + t.split('\n')
            new = new[:-1] + [new[-1][:-1]] + L[i + 2:] if t.endswith('\x01') else new + L[i + 1:]
            with open(fn, 'w') as f:
                f.write('\n'.join(new))
            got = isolated(c18.convert, args)
            r.steps += 1
            r.see(name, i, t, got[0])
            say = 'line %d of %s: %r for %r' % (i, fn, t, old)
            if got[0] not in ('ok', 'refused', 'bad'):
                r.fail('inpgen:%s:%s' % (name, got[0]), '%s\n%s' % (got[1], say))
            elif got[0] == 'bad' and args[0] == 'ha':      # damaged tensors may be left to the analysis to refuse
                r.fail('inpgen:%s:bad' % name, '%s\n%s' % (got[1], say))
            elif got[0] == 'ok' and 'NaN' in t and re.search(r'nan', repr({k: v for k, v in got[1].items() if k not in ('job',)})):
                r.fail('inpgen:%s:nan' % name, say)


def cases(tier):
    th = tier == 'thorough'
    for name, (cmd, data, opts) in inputs().items():
        n = 16 if cmd in ('soec', 'qha') else 8
        for p in range(n):
            yield ['damaged', name, p, n, tier]
    for kind in ('ha', 'qha', 'soec'):
        for p in range(8):
            yield ['results', kind, p, 8, tier]
    for name in c18.cuttable():
        for p in range(4):
            yield ['outputs', name, p, 4, tier]


def run_case(case):
    r = Result()
    with scratch():
        {'damaged': damaged, 'results': results, 'outputs': outputs}[case[0]](r, *case[1:])
    return r
