"""C12 phonon input files: write/read round trips through the real generator,
every documented layout, and every single (pair, thorough) damage of the tree of
small files against an independent reading of the documentation."""
import itertools
import math
import os

import numpy as np
import yaml

from mc import cli, outputs
from mc.core import Result, close, isolated, scratch

PROPERTY = 'C12'
RULE = ('interface x atoms x q-points x volumes x weight/supercell/magnitude patterns x job names: generated, read back and compared; layout variants '
        'of the same file; every single edit of the document tree (pairs in thorough), judged by an independent specification; sequences of readings')
ASSUMPTIONS = ['a valid file holds the documented keywords, positive finite volumes, finite energies and frequencies, weights that are not negative '
               'and not all zero; everything else about the values is the user\'s choice']

JOBS = ['Test', 'MgO: B3LYP', 'a # b', "it's \"quoted\"", '2020', '1.5e3', '- list', '{a: b}', '[1, 2]', 'yes', 'null', '%percent', '@at', 'tab\there', ' spaces ',
        'x' * 120, '', ': colon', 'ends with :', '\u00e9\u00b1', '? q', '| pipe', '*star', '&amp', '!tag', 'back\\slash', '~', '0x1F', '2020-01-01', '---', '...']
THZ = 1e12 / 29979245800.


def lattice(kind, v):
    m = {'cub': np.eye(3), 'fcc': np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), 'left': np.diag([1., 1., -1.]),
         'tri': np.array([[1., 0, 0], [.2, 1.1, 0], [-.1, .3, .9]])}[kind]
    return m * (v / abs(np.linalg.det(m))) ** (1. / 3.)


def system(nat, nq, nv, kind, mag, wp):
    V = [30.125 * (1. + 0.04 * i) * mag for i in range(nv)]
    E = [-275.1234567891 * mag - 0.0123456789 * (i - 1) ** 2 for i in range(nv)]
    F = np.array([[[round(((-1) ** (q + b) if b == 1 else 1) * (13.25 + 101.1 * b + 7.5 * q) * mag - 3.0625 * v, 4) for v in range(nv)]
                   for b in range(3 * nat)] for q in range(nq)])
    W = {'one': [1.] * nq, 'ramp': [1. + q for q in range(nq)], 'big': [1., 4096., 12345., 7.][:nq], 'frac': [.25, .75, .5, .125][:nq]}[wp]
    Q = [(round(.5 * (q % 2), 7), round(q / 4., 7), 0.125 * (q // 2)) for q in range(nq)]
    return V, E, F, W, Q, [lattice(kind, v) for v in V]


DIMS = {'id': np.eye(3, dtype=int), 'diag': np.diag([2, 1, 3]), 'fcc': np.array([[-2, 2, 2], [2, -2, 2], [2, 2, -2]]), 'swap': np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])}


def generate(interface, nat, nq, nv, kind, mag, wp, dim, job, refs=()):
    """runs inpgen on synthetic outputs; returns (Run, expected)"""
    V, E, F, W, Q, L = system(nat, nq, nv, kind, mag, wp)
    d = DIMS[dim]
    n = int(round(abs(np.linalg.det(d))))
    if interface == 'phonopy':
        for i in range(nv):
            for suf, t in outputs.phonopy(L[i], nat, E[i], d, list(zip(W, Q)), F[:, :, i] / THZ).items():
                open('p%d%s' % (i, suf), 'w').write(t)
        open('list', 'w').write('\n'.join('p%d.yaml' % i for i in range(nv)) + '\n')
        E = [float('%.8f' % e) for e in E]
        Q = [tuple(float('%.7f' % x) for x in q) for q in Q]
    elif interface == 'crystal':
        shrink = [2, 4, 8]
        for i in range(nv):
            if dim == 'id':
                t = outputs.crystal_gamma(L[i], nat, E[i], F[0, :, i])
            else:
                t = outputs.crystal_dispersion(L[i], nat, E[i] * n, d, [(w, [int(round(a * b)) for a, b in zip(q, shrink)]) for w, q in zip(W, Q)],
                                               F[:, :, i].tolist(), shrink, hess=(wp == 'frac'))
            open('p%d' % i, 'w').write(t)
        open('list', 'w').write('\n'.join('p%d' % i for i in range(nv)))
        if dim == 'id':
            W, F, Q = [1.], F[:1], [(0., 0., 0.)]
    else:
        # the simulated cell is the supercell; modes of all its k-points in sequence
        F = F[:1].repeat(n, axis=0) + 3. * np.arange(n)[:, None, None]
        sl = [np.dot(d, x) for x in L]
        open('list', 'w').write(outputs.crystal_qha(sl, nat * n, [e * n for e in E], F.reshape(-1, nv), dim=None if dim == 'id' else d))
        W, Q = [1.] * n, [(0., 0., 0.)] * n
    args = ['inpgen', 'ha', 'list', '-i', interface, '-o', 'gen'] + (['-l'] if interface != 'crystal-qha' else [])
    first = cli.quantas(args, [job])
    # the reference gives the cell only: the file is the same for each of them
    other = []
    for k in refs if os.path.exists('gen.yaml') else ():
        os.rename('gen.yaml', 'gen0.yaml')
        run = cli.quantas(args + ['-r', str(k)], [job])
        if not os.path.exists('gen.yaml'):
            other.append('-r %d: %s' % (k, run.output[-300:]))
        elif open('gen.yaml').read() != open('gen0.yaml').read():
            other.append('-r %d gives\n%s' % (k, open('gen.yaml').read()))
        os.replace('gen0.yaml', 'gen.yaml')
    return first, (nat, d, V, E, F, W, Q), other


def read(fn):
    from quantas.IO.qha_reader import QHAInputFileReader
    try:
        rd = QHAInputFileReader(fn)
    except Exception as e:
        return {'crash': '%s: %s' % (type(e).__name__, e)}
    if not rd.completed or rd.error is not None:
        return {'error': str(rd.error), 'completed': bool(rd.completed)}
    try:
        return {'job': rd.jobname, 'natom': int(rd.natoms), 'kpoints': int(rd.kpoints), 'qpoints': int(rd.qpoints), 'nvol': int(rd.nvol),
                'volume': np.array(rd.volume, float).tolist(), 'energy': np.array(rd.energy, float).tolist(),
                'freq': np.array(rd.frequencies, float).tolist(), 'weights': np.array(rd.weights, float).tolist()}
    except Exception as e:
        return {'crash': '%s: %s' % (type(e).__name__, e)}


def same(r, key, got, exp, where, vtol=0., etol=0., ftol=0., wtol=0.):
    """exp: (natom, dim, V, E, F, W)"""
    r.steps += 1
    if 'crash' in got:
        r.fail(key + ':crash', '%s\n%s' % (got['crash'], where))
        return
    if 'error' in got:
        r.fail(key + ':refused', 'refused: %s\n%s' % (got['error'], where))
        return
    nat, d, V, E, F, W = exp[:6]
    if got['natom'] != nat or got['qpoints'] != len(W) or got['nvol'] != len(V):
        r.fail(key + ':sizes', 'atoms, q-points, volumes %r; written %r\n%s' % ((got['natom'], got['qpoints'], got['nvol']), (nat, len(W), len(V)), where))
        return
    for n, a, b, rt, at in (('volume', got['volume'], V, 1e-15, vtol), ('energy', got['energy'], E, etol, 1e-300), ('freq', got['freq'], F, 1e-15, ftol),
                            ('weights', got['weights'], W, wtol, 0.)):
        if not close(a, b, rtol=rt + 1e-15, atol=at):
            r.fail(key + ':' + n, '%s read as %r, written %r\n%s' % (n, a, np.array(b).tolist(), where))
    if got['kpoints'] != int(round(abs(np.linalg.det(np.array(d, float))))):
        r.fail(key + ':cell', 'number of cells %r, supercell %r\n%s' % (got['kpoints'], d, where))


# ---------------------------------------------------------------- documents
def document(nat, nq, nv):
    V, E, F, W, Q, L = system(nat, nq, nv, 'cub', 1., 'ramp')
    return {'job': 'Test', 'natom': nat, 'supercell': [[1, 0, 0], [0, 2, 0], [0, 0, 1]], 'qpoints': nq, 'volume': list(V), 'energy': list(E),
            'phonon': [{'q-position': list(Q[q]), 'weight': W[q], 'band': [{'frequency': F[q, b].tolist()} for b in range(3 * nat)]} for q in range(nq)]}


def number(x):
    """finite number, None if it is not one; raises LookupError when unclear"""
    if isinstance(x, bool):
        raise LookupError
    if isinstance(x, (int, float)):
        return float(x) if math.isfinite(x) else None
    if isinstance(x, str):
        try:
            v = float(x)
        except ValueError:
            return None
        if not math.isfinite(v):
            return None
        raise LookupError
    return None


def array(x):
    """list of finite numbers or None"""
    if isinstance(x, list):
        if len(x) == 1 and isinstance(x[0], str) and ' ' in x[0]:
            raise LookupError
        v = [number(i) for i in x]
        return None if None in v else v
    if isinstance(x, str):
        raise LookupError
    v = number(x)
    return None if v is None else [v]


def spec(doc):
    """expected data, None for an invalid document; LookupError: not defined"""
    if not isinstance(doc, dict):
        return None
    for k in ('natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon'):
        if k not in doc:
            return None
    if isinstance(doc.get('job', ''), (list, dict)) or doc.get('job', '') is None:
        raise LookupError
    unclear = False
    V = E = None
    try:
        V = array(doc['volume'])
        if not V or min(V) <= 0.:
            return None
    except LookupError:
        unclear = True
    try:
        E = array(doc['energy'])
        if not E or (V and len(E) != len(V)):
            return None
    except LookupError:
        unclear = True
    s = doc['supercell']
    if not isinstance(s, list) or len(s) != 3 or any(not isinstance(x, list) or len(x) != 3 for x in s):
        return None
    for x in s:
        for y in x:
            try:
                if number(y) is None:
                    return None
            except LookupError:
                unclear = True
    n = []
    for k in ('natom', 'qpoints'):
        try:
            v = number(doc[k])
        except LookupError:
            raise
        if v is None or v < 1 or v != int(v):
            return None
        n.append(int(v))
    nat, nq = n
    ph = doc['phonon']
    if not isinstance(ph, list) or len(ph) != nq:
        return None
    W, F = [], []
    for q in ph:
        if not isinstance(q, dict) or 'weight' not in q or 'band' not in q:
            return None
        if 'q-position' not in q or not isinstance(q['q-position'], list) or len(q['q-position']) != 3:
            unclear = True
        else:
            for x in q['q-position']:
                try:
                    unclear = unclear or number(x) is None
                except LookupError:
                    unclear = True
        try:
            w = number(q['weight'])
            if w is None or w < 0:
                return None
            W.append(w)
        except LookupError:
            unclear = True
        if not isinstance(q['band'], list) or len(q['band']) != 3 * nat:
            return None
        F.append([])
        for b in q['band']:
            if not isinstance(b, dict) or 'frequency' not in b:
                return None
            try:
                f = array(b['frequency'])
                if not f or (V and len(f) != len(V)):
                    return None
                F[-1].append(f)
            except LookupError:
                unclear = True
    if len(W) == nq and sum(W) <= 0.:
        return None
    if unclear:
        raise LookupError
    det = np.linalg.det(np.array(s, float))
    if abs(det - round(det)) > 1e-6 or abs(det) < .5:
        raise LookupError
    return nat, s, V, E, np.array(F), W


def nodes(t, path=()):
    yield path
    if isinstance(t, dict):
        for k in t:
            for x in nodes(t[k], path + (k,)):
                yield x
    elif isinstance(t, list):
        for i, k in enumerate(t):
            for x in nodes(k, path + (i,)):
                yield x


OPS = ['delete', 'null', 'abc', 'nan', 'inf', '-inf', 'neg', 'zero', 'half', 'plus', 'emptyl', 'emptyd', 'wrap', 'twice', 'text', 'drop', 'more', 'unwrap']


def edit(t, path, op):
    """edited deep copy of the tree, None if not applicable"""
    import copy
    t = copy.deepcopy(t)
    box = [t]
    par, key = box, 0
    try:
        for p in path:
            par, key = par[key], p
        x = par[key]
    except (LookupError, TypeError):
        return None
    if not isinstance(par, (dict, list)):
        return None
    num = isinstance(x, (int, float)) and not isinstance(x, bool)
    if op == 'delete':
        if par is box:
            return None
        del par[key]
    elif op == 'twice':
        if not isinstance(par, list) or par is box:
            return None
        par.insert(key, copy.deepcopy(x))
    elif op in ('neg', 'plus', 'half', 'text') and not num:
        return None
    elif op in ('drop', 'more', 'unwrap'):
        if not isinstance(x, list) or not x:
            return None
        par[key] = x[:-1] if op == 'drop' else x + [copy.deepcopy(x[-1])] if op == 'more' else x[0]
    else:
        par[key] = {'null': None, 'abc': 'abc', 'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf'), 'zero': 0,
                    'neg': -abs(x) - 1 if num else 0, 'half': x + .5 if num else 0, 'plus': x + 1 if num else 0, 'text': '%s%s' % (x, 'x') if num else 0,
                    'emptyl': [], 'emptyd': {}, 'wrap': [x]}[op]
    return box[0]


def judge(r, doc, name, viacli=True):
    text = yaml.safe_dump(doc, sort_keys=False) if doc != '' else ''
    try:
        exp = spec(doc)
    except LookupError:
        exp = 'skip'
    with open('m.yaml', 'w') as f:
        f.write(text)
    got = read('m.yaml')
    r.steps += 1
    key = 'edit:' + name
    if 'crash' in got:
        r.fail(key + ':crash', '%s\n%s' % (got['crash'], text))
        return
    if isinstance(exp, str):
        return
    r.see(name, exp is None, got.get('error'))
    if exp is None:
        if 'error' not in got or got['completed'] or got['error'] in ('None', ''):
            r.fail(key + ':accepted', 'an invalid file was accepted: %r\n%s' % (got, text))
            return
    else:
        same(r, key, got, exp, text)
        return
    if viacli:
        run = cli.quantas(['ha', 'm.yaml', '-o', 'res'])
        r.steps += 1
        if run.crashed or not run.error or 'res.hdf5' in cli.listing():
            r.fail(key + ':cli', 'not refused by the command: %s %s\n%s' % (run.output[-300:], run.why(), text))


def layouts(nat, nq, nv):
    """(name, text) of the same data; numbers given by style"""
    V, E, F, W, Q, L = system(nat, nq, nv, 'cub', 1., 'ramp')
    styles = {'plain': lambda x: '%.6f' % x, 'exp': lambda x: '%.9E' % x, 'signed': lambda x: '%+.6f' % x, 'short': lambda x: '%.8ge0' % x, 'wide': lambda x: '   %18.6f  ' % x}
    out = []
    for sn, st in styles.items():
        for order in ('doc', 'reverse', 'mixed'):
            for lay in ('flow', 'block', 'comments', 'multiline'):
                for jl in (None, 'job: a job', 'job: 12', "job: 'x: y'"):
                    out.append((sn, order, lay, jl))
    for sn, order, lay, jl in out:
        st = styles[sn]
        rd = lambda x: float(st(x))

        def lst(xs, ind):
            if lay == 'block':
                return ''.join('\n' + ind + '- ' + st(x).strip() for x in xs)
            if lay == 'multiline':
                return ' [' + (',\n' + ind + '    ').join(st(x) for x in xs) + ']'
            return ' [ ' + ', '.join(st(x) for x in xs) + ' ]' + ('   # values' if lay == 'comments' else '')
        parts = {'natom': 'natom: %d' % nat, 'supercell': 'supercell:\n- [ -1, 1, 1 ]\n- [ 1, -1, 1 ]\n- [ 1, 1, -1 ]', 'qpoints': 'qpoints:   %d' % nq,
                 'volume': 'volume:' + lst(V, '  '), 'energy': 'energy:' + lst(E, '  ')}
        P = ['phonon:']
        for q in range(nq):
            P += ['- q-position: [ %.7f, %.7f, %.7f ]' % Q[q], '  weight: %d' % W[q], '  band:']
            for b in range(3 * nat):
                P += ['  - # %d' % (b + 1), '    frequency:' + lst(F[q, b], '      ')]
            if lay == 'comments':
                P += ['', '# next q-point']
        parts['phonon'] = '\n'.join(P)
        keys = ['natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon']
        if order == 'reverse':
            keys = keys[::-1]
        elif order == 'mixed':
            keys = ['phonon', 'energy', 'natom', 'volume', 'qpoints', 'supercell']
        L = ([jl] if jl else []) + [parts[k] for k in keys]
        if lay == 'comments':
            L = ['# a comment', '---'] + [x for k in L for x in (k, '')]
        vec = np.vectorize(rd)
        yield (sn, order, lay, jl), '\n'.join(L) + '\n', (nat, np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]), vec(V), vec(E), vec(F), W)


def shapes(tier):
    if tier == 'thorough':
        return itertools.product((1, 2, 3), (1, 2, 3, 4), (1, 2, 3, 4, 7))
    return [(1, 1, 1), (1, 2, 2), (1, 3, 1), (1, 1, 4), (2, 1, 4), (2, 1, 2), (2, 2, 1), (2, 3, 3)]


def cases(tier):
    for nat, nq, nv in shapes(tier):
        for itf in ('phonopy', 'crystal', 'crystal-qha'):
            if itf != 'crystal-qha' or (nq == 1 and nv >= 4):
                yield ['trip', itf, nat, nq, nv, tier]
        yield ['layout', nat, nq, nv]
    for i in range(0, len(JOBS), 4):
        yield ['jobs', JOBS[i:i + 4]]
    bases = [(1, 1, 1), (1, 2, 2), (1, 1, 3)] + ([(2, 1, 2), (2, 2, 1)] if tier == 'thorough' else [])
    for b in bases:
        n = len(list(nodes(document(*b))))
        for i in range(n):
            yield ['edit', list(b), i]
    small = (1, 1, 2) if tier == 'thorough' else (1, 1, 1)
    for i in range(len(list(nodes(document(*small))))):
        yield ['pairs', list(small), i, tier]
    yield ['counts', 3 if tier == 'thorough' else 2]
    yield ['seq']


def run_case(case):
    r = Result()
    with scratch():
        if case[0] == 'trip':
            _, itf, nat, nq, nv, tier = case
            for kind, mag, wp, dim in itertools.product(('cub', 'tri', 'left'), (1., 1e-3, 37.5), ('one', 'ramp', 'big', 'frac'), ('id', 'diag', 'fcc', 'swap')):
                if tier != 'thorough' and (kind, mag) != ('tri', 1.) and (wp, dim) != ('ramp', 'diag'):
                    continue
                if itf == 'phonopy' and wp == 'frac':
                    continue
                if (dim == 'fcc' and itf == 'crystal-qha') or (itf == 'crystal-qha' and (nq > 1 or nv < 4 or wp != 'one' and (wp, dim) != ('ramp', 'diag'))) or (kind != 'tri' and (mag != 1. or dim == 'fcc')):
                    continue
                if itf == 'crystal' and ((dim == 'id' and nq > 1) or mag == 1e-3):
                    continue
                run, exp, other = isolated(generate, itf, nat, nq, nv, kind, mag, wp, dim, 'Test job', range(nv) if itf != 'crystal-qha' else ())
                key = 'trip:' + itf
                where = repr((kind, mag, wp, dim, nat, nq, nv))
                r.see(where)
                if run.crashed or run.error:
                    r.fail(key, 'not generated %s: %s %s' % (where, run.output[-400:], run.why()))
                    continue
                if other:
                    r.fail(key + ':ref', 'with another reference %s\n%s' % (where, other[0]))
                r.steps += nv
                got = read('gen.yaml')
                big = max(np.abs(exp[4]).max(), 1.)
                same(r, key, got, exp, where, vtol=6e-9 + 2e-11 * max(exp[2]), etol=6e-12, ftol=6e-11 if itf != 'phonopy' else 1e-8 * big, wtol=1e-9)
                q = [p['q-position'] for p in yaml.safe_load(open('gen.yaml'))['phonon']]
                if not close(q, exp[6], atol=6e-8):
                    r.fail(key + ':q', 'q-positions %r, expected %r (%s)' % (q, exp[6], where))
                sc = np.array(yaml.safe_load(open('gen.yaml'))['supercell'])
                if not np.array_equal(sc, exp[1]):
                    r.fail(key + ':dim', 'supercell %r, expected %r (%s)' % (sc, exp[1], where))
                if 'job' in got and got['job'] != 'Test job':
                    r.fail(key + ':job', 'job %r' % got['job'])
        elif case[0] == 'jobs':
            for job in case[1]:
                for itf in ('phonopy', 'crystal-qha'):
                    run, exp, other = isolated(generate, itf, 1, 1, 5, 'tri', 1., 'one', 'id', job)
                    if run.crashed or run.error:
                        r.fail('job', 'not generated for %r: %s %s' % (job, run.output[-300:], run.why()))
                        continue
                    got = read('gen.yaml')
                    same(r, 'job', got, exp, 'job %r' % job, vtol=6e-9, etol=6e-12, ftol=1e-5, wtol=1e-9)
                    if 'job' in got and got['job'].strip() != job.strip():
                        r.fail('job:name', 'job %r read as %r' % (job, got['job']))
                    r.see(job, itf)
        elif case[0] == 'layout':
            for name, text, exp in layouts(*case[1:]):
                open('l.yaml', 'w').write(text)
                got = read('l.yaml')
                same(r, 'layout', got, exp, text)
                jl = name[3]
                if 'job' in got and jl and got['job'] != {'job: a job': 'a job', 'job: 12': '12'}.get(jl, 'x: y'):
                    r.fail('layout:job', '%r read as %r' % (jl, got['job']))
                r.see(name)
            if case[3] == 1:
                doc = document(*case[1:])
                for k in (('volume',), ('energy',), ('phonon', 0, 'band', 0, 'frequency')):
                    judge(r, edit(doc, k, 'unwrap'), 'scalar')
        elif case[0] == 'edit':
            doc = document(*case[1])
            path = list(nodes(doc))[case[2]]
            for op in OPS:
                new = edit(doc, path, op)
                if new is not None:
                    judge(r, new, op + ':' + '/'.join(str(p) for p in path if not isinstance(p, int)))
        elif case[0] == 'pairs':
            doc = document(*case[1])
            N = list(nodes(doc))
            for op in OPS:
                first = edit(doc, N[case[2]], op)
                if first is None:
                    continue
                for p2 in N[case[2]:]:
                    for op2 in ('delete', 'zero', 'plus', 'twice', 'drop') + (('abc', 'wrap', 'emptyl', 'more', 'unwrap') if case[3] == 'thorough' else ()):
                        second = edit(first, p2, op2)
                        if second is not None:
                            judge(r, second, 'pair:%s:%s' % (op, op2), False)
        elif case[0] == 'counts':
            # declared sizes against actual ones
            m = case[1] + 1
            for dn, dq, an, aq, nv, ne, nf in itertools.product(range(1, m), range(1, m), range(1, m), range(1, m), range(1, 4), range(1, 4), range(1, 4)):
                doc = document(an, aq, nv)
                doc['natom'], doc['qpoints'] = dn, dq
                doc['energy'] = [-1. - i for i in range(ne)]
                doc['phonon'][-1]['band'][-1]['frequency'] = [100. + i for i in range(nf)]
                judge(r, doc, 'counts', (dn, dq, an) != (an, aq, nv) and nf == 2)
        else:
            files = {}
            for n, t in (('a', document(1, 1, 2)), ('b', document(2, 2, 3)), ('bad', edit(document(1, 2, 2), ('volume', 0), 'delete')), ('nov', edit(document(1, 2, 2), ('volume',), 'delete')),
                         ('c', edit(document(1, 2, 1), ('job',), 'delete'))):
                open(n + '.yaml', 'w').write(yaml.safe_dump(t))
                files[n] = n + '.yaml'
            open('junk.yaml', 'w').write('a: [1, 2\nb: }')
            open('bin.yaml', 'wb').write(bytes(range(128, 256)))
            open('empty.yaml', 'w').write('')
            for n in ('junk', 'bin', 'empty'):
                files[n] = n + '.yaml'
            fresh = {n: isolated(read, f) for n, f in files.items()}
            for n in ('bad', 'nov', 'junk', 'bin', 'empty'):
                if 'error' not in fresh[n]:
                    r.fail('fresh:' + n, 'accepted: %r' % (fresh[n],))
            for k in (2, 3):
                for seq in itertools.product(files, repeat=k):
                    outs = isolated(lambda: [read(files[n]) for n in seq])
                    r.steps += k
                    r.see(seq)
                    for i, n in enumerate(seq):
                        if outs[i] != fresh[n]:
                            r.fail('history', 'after %r the file %r gives %r, alone %r' % (seq[:i], n, outs[i], fresh[n]))
                            return r
    return r
