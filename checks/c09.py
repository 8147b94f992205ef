"""C09 EoS data files: bounded-exhaustive enumeration of the documented keyword
grammar.  The files are printed from a known table, so the table is the oracle."""
import itertools
import os

import numpy as np

from mc import cli
from mc.core import Result, isolated, scratch, quiet

PROPERTY = 'C09'
RULE = ('every ordered selection of columns up to the bound; every combination of keyword layout features; every single-token and '
        'single-line corruption of three base files; every sequence of files from a menu up to depth 3 (4 thorough)')
ASSUMPTIONS = ['JOB precedes DATA; no comment between JOB/FORMAT and the line they describe (documented)',
               'each quantity named at most once in FORMAT; numbers are finite']

COLS = ['p', 'v', 'a', 'b', 'c', 'sigmap', 'sigmav', 'sigmaa', 'sigmab', 'sigmac']
NAMES = {'p': ['P', 'p'], 'v': ['V', 'v'], 'a': ['a', 'A'], 'b': ['b', 'B'], 'c': ['c', 'C'],
         'sigmap': ['sigmaP', 'sigP', 'SIGMAP', 'SigmaP'], 'sigmav': ['sigmaV', 'sigV', 'sigmav', 'SIGV'],
         'sigmaa': ['sigmaa', 'siga', 'SigmaA', 'SIGA'], 'sigmab': ['sigmab', 'sigb', 'SIGMAB'], 'sigmac': ['sigmac', 'sigc', 'SigC']}
ATTR = {'p': 'pressure', 'v': 'volume', 'a': 'a', 'b': 'b', 'c': 'c', 'sigmap': 'sigma_p', 'sigmav': 'sigma_v',
        'sigmaa': 'sigma_a', 'sigmab': 'sigma_b', 'sigmac': 'sigma_c'}
BASE = {'p': 0., 'v': 100., 'a': 5., 'b': 6., 'c': 7., 'sigmap': .01, 'sigmav': .02, 'sigmaa': .003, 'sigmab': .004, 'sigmac': .005}
TITLES = ['Quartz (Angel et al., 2000)', 'Data from powder diffraction', 'format of the second kind', 'job 12', '42 GPa run', 'P V a']
WORDS = ['Sample', '#2', 'format', 'DATA', 'job', '1.0', "it's", '"q"', '%s', '{0}', ';', 'a,b', '\u00e9', 'P', 'x' * 100, '!', '--', '\\n', 'a#b', ':']
TITLES += [' '.join(w) for n in (1, 2) for w in itertools.product(WORDS, repeat=n) if w[0][0] != '#']


def number(col, row):
    return round(BASE[col] * (1 - .01 * row) + (row if col == 'p' else 0) + .001 * row, 6)


STYLE = ['%.6g', '%.6E', '%+.6f', '%.6fE+00']


def text(cols, rows=2, title='T', names=None, order='JFD', case=str, sep=' ', lead='', noise=None, noise_at=(), extra=0,
         style='%.6g', end='\n', eol='\n'):
    """(text, table).  noise inserted before the blocks numbered in noise_at:
    0.. blocks in order, then each data row, then the end."""
    names = names or {c: NAMES.get(c, [c])[0] for c in cols}
    blocks = []
    for k in order:
        if k == 'J':
            blocks.append([lead + case('JOB'), title])
        elif k == 'F':
            blocks.append([lead + case('FORMAT'), lead + sep.join(names.get(c, c) for c in cols)])
        elif k == 'D':
            blocks.append([lead + case('DATA')])
            for i in range(rows):
                vals = [style % number(c, i) if c in BASE else '%d' % (900 + i) for c in cols] + ['77'] * extra
                blocks.append([lead + sep.join(vals)])
    L = []
    for i, b in enumerate(blocks):
        if i in noise_at:
            L += noise
        L += b
    if len(blocks) in noise_at:
        L += noise
    table = {c: [float(style % number(c, i)) for i in range(rows)] for c in cols if c in BASE}
    return eol.join(L) + end, table


def read(txt, fn='x.dat'):
    """plain description of what the reader made of a file"""
    from quantas.IO.eos_reader import EoSInputFileReader
    with open(fn, 'w', newline='') as f:
        f.write(txt)
    try:
        rd = EoSInputFileReader(fn)
    except Exception as e:
        return {'crash': '%s: %s' % (type(e).__name__, e)}
    out = {'completed': bool(rd.completed), 'error': None if rd.error is None else str(rd.error), 'job': rd.jobname}
    for c, at in ATTR.items():
        v = getattr(rd, at)
        out[c] = None if v is None else np.asarray(v, dtype=float).tolist()
        d = rd.data[c]
        if (d is None) != (v is None) or (d is not None and list(d) != list(v)):
            out['crash'] = 'data[%r] and .%s differ' % (c, at)
    return out


def good(r, key, txt, table, title, got=None):
    got = got or read(txt)
    r.steps += 1
    if 'crash' in got:
        r.fail(key + ':crash', '%s\n%s' % (got['crash'], txt))
        return
    if not got['completed'] or got['error'] is not None:
        r.fail(key + ':refused', 'a valid file was refused (%s)\n%s' % (got['error'], txt))
        return
    for c in COLS:
        if got[c] != table.get(c):
            r.fail(key + ':' + c, '%s read as %r, the file says %r\n%s' % (c, got[c], table.get(c), txt))
            return
    if title is not None and got['job'].strip() != title:
        r.fail(key + ':job', 'job name %r, the file says %r\n%s' % (got['job'], title, txt))


def refused(r, key, txt, got=None):
    got = got or read(txt)
    r.steps += 1
    if 'crash' in got:
        r.fail(key + ':crash', '%s\n%s' % (got['crash'], txt))
    elif got['completed'] or not got['error']:
        r.fail(key + ':accepted', 'completed=%r error=%r for an invalid file\n%s' % (got['completed'], got['error'], txt))
    elif any(got[c] is not None for c in COLS):
        r.fail(key + ':partial', 'partial data kept: %r\n%s' % ({c: got[c] for c in COLS if got[c]}, txt))


def menu():
    """name, text, table or None (invalid), title"""
    m = []
    for n, cols, title in (('full', ['p', 'v', 'a', 'b', 'c', 'sigmap', 'sigmav', 'sigmaa', 'sigmab', 'sigmac'], 'everything'),
                           ('pv', ['p', 'v'], 'only volume'), ('cp', ['c', 'sigmac', 'p'], 'only c')):
        t, tab = text(cols, rows=len(cols) % 3 + 2, title=title)
        m.append((n, t, tab, title))
    t, tab = text(['sigmav', 'v', 'p'], order='FD')
    m.append(('nojob', t, tab, 'Unknown'))
    m.append(('nop', text(['v', 'a', 'sigmap'])[0], None, None))
    m.append(('nov', text(['p', 'sigmav'])[0], None, None))
    m.append(('noformat', text(['p', 'v'], order='JD')[0], None, None))
    m.append(('nodata', text(['p', 'v', 'a'], order='JF')[0], None, None))
    m.append(('bad', text(['p', 'a', 'b'])[0].replace('6\n', 'x\n'), None, None))
    m.append(('empty', '', None, None))
    return m


def cases(tier):
    depth = 4 if tier == 'thorough' else 3
    for c in COLS:
        yield ['cols', c, depth]
    for order in ('JFD', 'FJD', 'FD'):
        for case in ('upper', 'lower', 'capitalize', 'swap'):
            for sep in (' ', '   ', '\t', ' \t '):
                yield ['layout', order, case, sep]
    for noise in ([''], ['   '], ['\t'], ['# comment'], ['   # DATA'], ['#'], ['# JOB', '# x', '']):
        yield ['noise', noise]
    for c in COLS:
        yield ['names', c]
    yield ['titles']
    for i in range(3):
        yield ['corrupt', i]
    yield ['missing']
    names = [m[0] for m in menu()]
    for a in names:
        yield ['seq', a, 3 if tier == 'thorough' else 2]
    for m in names:
        yield ['cli', m]
    yield ['example']


CASE = {'upper': str.upper, 'lower': str.lower, 'capitalize': str.capitalize, 'swap': lambda s: s[:1].lower() + s[1:].upper()}


def run_case(case):
    r = Result()
    kind = case[0]
    with scratch():
        if kind == 'cols':
            _, first, depth = case
            rest = [c for c in COLS if c != first]
            for n in range(0, depth):
                for tail in itertools.permutations(rest, n):
                    cols = (first,) + tail
                    t, tab = text(cols)
                    if 'p' in cols and set(cols) & set('vabc'):
                        good(r, 'cols', t, tab, 'T')
                    else:
                        refused(r, 'cols', t)
                    r.see(cols)
        elif kind == 'layout':
            _, order, cs, sep = case
            for cols in (['p', 'v'], ['c', 'p', 'sigmac', 'a']):
                for lead in ('', '  ', '\t'):
                    for extra in (0, 1):
                        for st in STYLE:
                            for rows in (1, 3):
                                for end, eol in (('\n', '\n'), ('', '\n'), ('\r\n', '\r\n')):
                                    t, tab = text(cols, rows=rows, order=order, case=CASE[cs], sep=sep, lead=lead, extra=extra,
                                                  style=st, end=end, eol=eol)
                                    good(r, 'layout', t, tab, 'T' if 'J' in order else 'Unknown')
                                    r.see(order, cs, sep, tuple(cols), lead, extra, st, rows, end)
        elif kind == 'noise':
            for order in ('JFD', 'FJD', 'FD'):
                n = len(order) + 3
                for k in range(0, n + 1):
                    for at in itertools.combinations(range(n + 1), k):
                        t, tab = text(['p', 'v', 'sigmap'], rows=3, order=order, noise=case[1], noise_at=at)
                        good(r, 'noise', t, tab, 'T' if 'J' in order else 'Unknown')
                        r.see(order, at)
        elif kind == 'names':
            c = case[1]
            for nm in NAMES[c]:
                others = [['p', 'v'], ['a', 'p', 'T', 'b'], ['x', 'p', 'c']]
                for o in others:
                    for pos in range(len(o) + 1):
                        cols = [x for x in o[:pos] if x != c] + [c] + [x for x in o[pos:] if x != c]
                        t, tab = text(cols, names=dict({k: NAMES.get(k, [k])[0] for k in cols}, **{c: nm}))
                        good(r, 'names', t, tab, 'T')
                        r.see(nm, pos, tuple(o))
        elif kind == 'titles':
            for title in TITLES:
                for order in ('JFD', 'FJD'):
                    t, tab = text(['p', 'v'], title=title, order=order)
                    good(r, 'titles', t, tab, title)
                    r.see(title, order)
        elif kind == 'corrupt':
            cols = (['p', 'v'], ['p', 'a', 'sigmap', 'sigmaa'], ['sigmac', 'c', 'p', 'v'])[case[1]]
            t, tab = text(cols, rows=3)
            lines = t.split('\n')[:-1]
            start = lines.index('DATA') + 1
            for i in range(start, len(lines)):
                toks = lines[i].split()
                for j in range(len(toks)):
                    for bad in ('x', '1.2.3', '--', '1,5', '1.0(2)', '0x1'):
                        new = toks[:j] + [bad] + toks[j + 1:]
                        refused(r, 'token', '\n'.join(lines[:i] + [' '.join(new)] + lines[i + 1:]) + '\n')
                        r.see('token', i, j, bad)
                    if j:
                        refused(r, 'short', '\n'.join(lines[:i] + [' '.join(toks[:j])] + lines[i + 1:]) + '\n')
                        r.see('short', i, j)
                keep = {c: v[:i - start] + v[i - start + 1:] for c, v in tab.items()}
                good(r, 'rowgone', '\n'.join(lines[:i] + lines[i + 1:]) + '\n', keep, 'T')
                r.see('gone', i)
            refused(r, 'norows', '\n'.join(lines[:start]) + '\n')
            refused(r, 'nodata', '\n'.join(lines[:start - 1]) + '\n')
        elif kind == 'missing':
            for order in ('', 'J', 'F', 'D', 'JF', 'FJ', 'JD', 'DF', 'JDF', 'DFJ'):
                for cols in (['p', 'v'], ['p', 'c', 'sigmac']):
                    refused(r, 'missing:' + order, text(cols, order=order)[0])
                    r.see(order, tuple(cols))
            for cols in (['v'], ['v', 'a', 'b', 'c'], ['sigmap', 'v'], ['p'], ['p', 'sigmav'], ['p', 'T'], ['T'], ['p', 'sigmap', 'sigmaa']):
                refused(r, 'incomplete', text(cols)[0])
                r.see(tuple(cols))
            for junk in ('', '\n', '\n\n  \n', '# only a comment\n', 'hello\n', '1 2 3\n4 5 6\n', 'JOB', 'FORMAT', 'DATA', 'FORMAT\n', 'DATA\n'):
                refused(r, 'junk', junk)
                r.see(junk)
        elif kind == 'seq':
            M = {m[0]: m for m in menu()}
            fresh = {}
            for n, m in M.items():
                fresh[n] = isolated(read, m[1])
                if m[2] is None:
                    refused(r, 'fresh:' + n, m[1], fresh[n])
                else:
                    good(r, 'fresh:' + n, m[1], m[2], m[3], fresh[n])

            def run(seq):
                out = []
                from quantas.IO.eos_reader import EoSInputFileReader
                live = []
                for n in seq:
                    out.append(read(M[n][1]))
                return out
            for k in range(1, case[2] + 1):
                for tail in itertools.product(M, repeat=k):
                    seq = (case[1],) + tail
                    outs = run(seq) if k > 1 else isolated(run, seq)
                    r.steps += len(seq)
                    r.see(seq)
                    for i, n in enumerate(seq):
                        if outs[i] != fresh[n]:
                            r.fail('history', 'after reading %r, file %r gives %r; alone it gives %r' % (seq[:i], n, outs[i], fresh[n]))
                            return r

            # two readers alive together
            def pair(a, b):
                from quantas.IO.eos_reader import EoSInputFileReader
                for n in (a, b):
                    open(n + '.dat', 'w').write(M[n][1])
                ra = EoSInputFileReader(a + '.dat')
                EoSInputFileReader(b + '.dat')
                return [None if getattr(ra, ATTR[c]) is None else getattr(ra, ATTR[c]).tolist() for c in COLS]
            for b in M:
                got = isolated(pair, case[1], b)
                r.steps += 2
                if got != [fresh[case[1]][c] for c in COLS]:
                    r.fail('alive', 'reading %r changed the data held by the reader of %r' % (b, case[1]))
        elif kind == 'cli':
            name, t, tab, title = {m[0]: m for m in menu()}[case[1]]
            open('x.dat', 'w').write(t)
            run = cli.quantas(['eosfit', 'x.dat'], ['zz'])
            r.steps += 1
            r.see(name, tab is None)
            if tab is None:
                if run.crashed or not run.error:
                    r.fail('cli:' + name, 'an invalid file was not refused: %s %s' % (run.output[-400:], run.why()))
                elif 'DATA SELECTION' in run.output:
                    r.fail('cli:' + name, 'a fit was offered on an invalid file')
            else:
                out = run.output
                if title and 'Job: ' + title not in out:
                    r.fail('cli:job', 'job name not reported: %s' % out[-1500:])
                got = []
                for line in out.splitlines():
                    w = line.split()
                    if len(w) == 5 and w[0].replace('.', '').isdigit() and all(x == '--' or x.replace('.', '').isdigit() for x in w):
                        got.append([None if x == '--' else float(x) for x in w])
                want = [[tab['p'][i]] + [None if c not in tab else tab[c][i] for c in 'vabc'] for i in range(len(tab['p']))]
                ok = len(got) == len(want) and all(
                    (x is None) == (y is None) and (x is None or abs(x - y) < 6e-4) for g, w in zip(got, want) for x, y in zip(g, w))
                if not ok:
                    r.fail('cli:table', 'reported %r, the file says %r' % (got, want))
                for c, label in (('sigmap', 'pressure'), ('sigmav', 'volume'), ('sigmaa', 'a-axis'), ('sigmab', 'b-axis'), ('sigmac', 'c-axis')):
                    if (c in tab) != ('Found weights for ' + label in out):
                        r.fail('cli:weights', 'weights for %s wrongly reported' % label)
                shown = [c for c, l in (('v', 'v. Volume'), ('a', 'a. a-axis'), ('b', 'b. b-axis'), ('c', 'c. c-axis')) if l in out]
                if shown != [c for c in 'vabc' if c in tab]:
                    r.fail('cli:menu', 'selectable data %r' % (shown,))
        elif kind == 'example':
            from mc import build
            for fn in ('PV_topaz.dat',):
                src = open(os.path.join(build.REPO, 'examples', fn)).read()
                lines = [l for l in src.splitlines() if l.strip() and not l.strip().startswith('#')]
                i = [k for k, l in enumerate(lines) if l.split()[0].upper() == 'FORMAT'][0]
                j = [k for k, l in enumerate(lines) if l.split()[0].upper() == 'DATA'][0]
                cols = [c.lower() for c in lines[i + 1].split()]
                cols = [{'sigp': 'sigmap', 'sigv': 'sigmav', 'siga': 'sigmaa', 'sigb': 'sigmab', 'sigc': 'sigmac'}.get(c, c) for c in cols]
                tab = {c: [float(l.split()[n]) for l in lines[j + 1:]] for n, c in enumerate(cols) if c in BASE}
                good(r, 'example', src, tab, None)
                r.see(fn)
    return r
