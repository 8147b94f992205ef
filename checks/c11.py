"""C11 elastic input files: bounded-exhaustive enumeration of the layouts and of
single-token / single-line corruptions; the printed tensor is the oracle."""
import itertools

import numpy as np

from mc import cli
from mc.core import Result, isolated, scratch, close

PROPERTY = 'C11'
RULE = ('tensor x form (upper, lower, complete) x title x density x number style x separators x line ends; every single-token and '
        'single-line corruption of every layout; all sequences of files from a menu up to depth 3 (4 thorough)')
ASSUMPTIONS = ['a title holds at least one word that is not a number', 'a file whose damage leaves another documented layout is not damage']

FORMS = {'upper': lambda i: range(i, 6), 'lower': lambda i: range(0, i + 1), 'complete': lambda i: range(6)}
WORDS = ['MgO', '#2', '1.0', '3000', "it's", '%s', '{0}', '\u00e9', '1,2', 'a#b', 'nan?', '-1-', 'x' * 90]
TITLES = [None, 'Hydroxylapatite', '3C-SiC polytype', '-quartz (alpha)', '12 GPa run', '1 2 3 model', '# comment like', 'a', ' padded']
DENSITIES = [None, '3178', '3178.25', '  2.65E3', '0', '3178 kg m^-3']
STYLES = ['%.3f', '%.6E', '%+.4f', '%.3fe+00']


def tensors():
    g = np.zeros((6, 6))
    for n, (i, j) in enumerate(itertools.combinations_with_replacement(range(6), 2)):
        g[i, j] = g[j, i] = (300. - 11.25 * n if i == j else (-1) ** n * (3.125 + 1.75 * n))
    h = np.zeros((6, 6))
    h[:3, :3] = 84.703
    h[0, 1] = h[1, 0] = 65.193
    h[[0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5]] = [187.208, 187.208, 222.658, 39.687, 39.687, 61.007]
    z = np.diag([1.5, 2.5, 3.5, 4.5, 5.5, 6.5])
    return {'generic': g, 'hap': h, 'diag': z}


def rows_of(m, form, style='%.3f'):
    return [[style % m[i, j] for j in FORMS[form](i)] for i in range(6)]


def text(rows, title=None, density=None, sep=' ', lead='', indent=None, end='\n', eol='\n', gap=()):
    L = [] if title is None else [title]
    for i, r in enumerate(rows):
        pre = lead if indent != 'staircase' else ' ' * (10 * (6 - len(r)))
        L.append(pre + sep.join(r))
    L += gap
    if density is not None:
        L.append(density)
    return eol.join(L) + end


def read(txt, fn='x.dat'):
    from quantas.IO.soec_reader import SOECInputFileReader
    with open(fn, 'w', newline='') as f:
        f.write(txt)
    try:
        rd = SOECInputFileReader(fn)
    except Exception as e:
        return {'crash': '%s: %s' % (type(e).__name__, e)}
    s = rd.stiffness
    return {'completed': bool(rd.completed), 'error': None if rd.error is None else str(rd.error), 'job': rd.jobname,
            'density': float(rd.density), 'm': None if s is None else np.asarray(s, dtype=float).tolist()}


def good(r, key, txt, m, title, density, got=None):
    got = got or read(txt)
    r.steps += 1
    if 'crash' in got:
        r.fail(key + ':crash', '%s\n%s' % (got['crash'], txt))
    elif not got['completed'] or got['error'] is not None:
        r.fail(key + ':refused', 'a valid file was refused (%s)\n%s' % (got['error'], txt))
    elif not close(got['m'], m, rtol=1e-13):
        r.fail(key + ':tensor', 'read as\n%r\nthe file says\n%r\n%s' % (np.array(got['m']), m, txt))
    elif got['density'] != (float(density.split()[0]) if density else 0.):
        r.fail(key + ':density', 'density %r, the file says %r\n%s' % (got['density'], density, txt))
    elif got['job'].strip() != (title.strip() if title else 'Unknown'):
        r.fail(key + ':job', 'job %r, the file says %r\n%s' % (got['job'], title, txt))


def refused(r, key, txt, got=None):
    got = got or read(txt)
    r.steps += 1
    if 'crash' in got and not txt.split('\n')[0].strip():
        # the reader raises IndexError for an empty first line (an existing test
        # asks for it); what counts is what the command makes of it
        open('x.dat', 'w').write(txt)
        run = cli.quantas(['soec', 'x.dat'])
        if run.crashed or not run.error:
            r.fail(key + ':crash', '%s\n%s' % (run.why(), txt))
    elif 'crash' in got:
        r.fail(key + ':crash', '%s\n%s' % (got['crash'], txt))
    elif got['completed'] or not got['error']:
        r.fail(key + ':accepted', 'completed=%r error=%r for an invalid file, read as %r\n%s' % (got['completed'], got['error'], got['m'], txt))


def written(m, style):
    return np.array([[float(style % x) for x in row] for row in m])


def menu():
    t = tensors()
    M = []
    for n, form, key, title, dens in (('up', 'upper', 'generic', 'first', '3000'), ('lo', 'lower', 'hap', None, None),
                                      ('co', 'complete', 'diag', 'third', '2500.5'), ('nodens', 'complete', 'hap', 'fourth', None),
                                      ('notitle', 'upper', 'hap', None, '7000')):
        M.append((n, text(rows_of(t[key], form), title, dens), t[key], title, dens))
    bad = rows_of(t['generic'], 'complete')
    asym = [list(x) for x in bad]
    asym[0][5] = '77'
    M.append(('asym', text(asym, 'asym', '1234'), None, None, None))
    M.append(('word', text(bad[:3] + [['x'] * 6] + bad[4:], 'word', '1234'), None, None, None))
    M.append(('short', text(bad[:4], 'short'), None, None, None))
    M.append(('baddens', text(bad, 'bad', 'heavy'), None, None, None))
    return M


def cases(tier):
    for t in tensors():
        for form in FORMS:
            for ti in range(len(TITLES)):
                yield ['layout', t, form, ti]
    for form in FORMS:
        yield ['titles', form]
    for form in FORMS:
        for title in (None, 'T'):
            for dens in (None, '3178'):
                yield ['corrupt', form, title, dens]
    yield ['asym']
    yield ['forms']
    for m in menu():
        yield ['seq', m[0], 3 if tier == 'thorough' else 2]
        yield ['cli', m[0]]
    yield ['cliblank']


def run_case(case):
    r = Result()
    T = tensors()
    with scratch():
        if case[0] == 'layout':
            _, tn, form, ti = case
            title = TITLES[ti]
            for st in STYLES:
                m = written(T[tn], st)
                rows = rows_of(T[tn], form, st)
                for dens in DENSITIES:
                    for sep, lead, indent in ((' ', '', None), ('   ', '   ', None), ('\t', '\t', None), ('  ', '', 'staircase')):
                        for end, eol in (('\n', '\n'), ('', '\n'), ('\n\n\n', '\n'), ('\r\n', '\r\n'), (' \n \n', '\n')):
                            good(r, 'layout:' + form, text(rows, title, dens, sep, lead, indent, end, eol), m, title, dens)
                            r.see(tn, form, ti, st, dens, sep, indent, end)
        elif case[0] == 'titles':
            form = case[1]
            for tn in list(T)[:2]:
                m = written(T[tn], STYLES[0])
                rows = rows_of(T[tn], form, STYLES[0])
                for words in [w for n in (1, 2, 3) for w in itertools.product(WORDS, repeat=n)]:
                    title = ' '.join(words)
                    if title.replace('.', '').replace(' ', '').isdigit() or len(words) == 3 and len(set(words)) < 3:
                        continue
                    for dens in (None, '3178'):
                        good(r, 'titles:' + form, text(rows, title, dens), m, title, dens)
                    r.see(tn, form, title)
        elif case[0] == 'corrupt':
            _, form, title, dens = case
            rows = rows_of(T['generic'], form)
            for i in range(6):
                for j in range(len(rows[i])):
                    for bad in ('x', '1..2', '1,5', 'nan', 'inf', '-', '12.3(4)', '1.0E', ''):
                        new = [list(x) for x in rows]
                        new[i][j] = bad
                        refused(r, 'token:' + form, text(new, title, dens))
                        r.see('token', i, j, bad)
                    new = [list(x) for x in rows]
                    new[i].insert(j, '5.5')
                    refused(r, 'extra:' + form, text(new, title, dens))
                    new = [list(x) for x in rows]
                    new[i][j:j + 2] = [''.join(new[i][j:j + 2])] if len(new[i]) > j + 1 else []
                    refused(r, 'glued:' + form, text(new, title, dens))
                    r.see('extra', i, j)
                if not (form == 'upper' and i == 5 and dens):
                    refused(r, 'rowgone:' + form, text(rows[:i] + rows[i + 1:], title, dens))
                if i < 5:
                    refused(r, 'rowtwice:' + form, text(rows[:i + 1] + rows[i:], title, dens))
                    sw = list(rows)
                    sw[i], sw[i + 1] = sw[i + 1], sw[i]
                    refused(r, 'swapped:' + form, text(sw, title, dens))
                refused(r, 'blank:' + form, text(rows[:i] + [[]] + rows[i:], title, dens)) if i or title else None
                r.see('row', i)
            for n in range(6):
                refused(r, 'cut:' + form, text(rows[:n], title, None))
            if dens:
                for bad in ('x', 'density 3178', 'kg', '3,178', 'nan', '--', '31.7.8'):
                    refused(r, 'density', text(rows, title, bad))
                    r.see('density', bad)
        elif case[0] == 'asym':
            for i, j in itertools.permutations(range(6), 2):
                for d in (0.01, -0.01, 1., -100.):
                    m = T['generic'].copy()
                    m[i, j] += d
                    refused(r, 'asym', text(rows_of(m, 'complete', '%.6f'), 'T', '3178'))
                    r.see(i, j, d)
        elif case[0] == 'forms':
            # every row-length pattern near the three documented ones
            full = rows_of(T['generic'], 'complete')
            docs = [[6] * 6, [6, 5, 4, 3, 2, 1], [1, 2, 3, 4, 5, 6]]
            for base in docs:
                for i in range(6):
                    for n in range(1, 8):
                        f = list(base)
                        f[i] = n
                        if f in docs:
                            continue
                        rows = [(full[k] + ['1.0', '2.0'])[:f[k]] for k in range(6)]
                        refused(r, 'form', text(rows, 'T', '3178'))
                        r.see(tuple(f))
            for n in range(1, 9):
                if n != 6:
                    refused(r, 'form', text([(full[k] * 2)[:n] for k in range(6)], 'T', '3178'))
                    r.see('all', n)
            for junk in ('hello\n', 'a\nb\nc\nd\ne\nf\ng\nh\n', '1\n2\n3\n4\n5\n6\n7\n', ''):
                refused(r, 'junk', junk)
        elif case[0] == 'seq':
            M = {m[0]: m for m in menu()}
            fresh = {n: isolated(read, m[1]) for n, m in M.items()}
            for n, m in M.items():
                if m[2] is None:
                    refused(r, 'fresh:' + n, m[1], fresh[n])
                else:
                    good(r, 'fresh:' + n, m[1], m[2], m[3], m[4], fresh[n])
            for k in range(1, case[2] + 1):
                for tail in itertools.product(M, repeat=k):
                    seq = (case[1],) + tail
                    outs = [read(M[n][1]) for n in seq]
                    r.steps += len(seq)
                    r.see(seq)
                    for i, n in enumerate(seq):
                        if outs[i] != fresh[n]:
                            r.fail('history', 'after %r, file %r gives %r; alone %r' % (seq[:i], n, outs[i], fresh[n]))
                            return r

            def pair(a, b):
                from quantas.IO.soec_reader import SOECInputFileReader
                for n in (a, b):
                    open(n + '.dat', 'w').write(M[n][1])
                ra = SOECInputFileReader(a + '.dat')
                SOECInputFileReader(b + '.dat')
                return [None if ra.stiffness is None else ra.stiffness.tolist(), float(ra.density), ra.jobname]
            for b in M:
                r.steps += 2
                f = fresh[case[1]]
                if isolated(pair, case[1], b) != [f['m'], f['density'], f['job']]:
                    r.fail('alive', 'reading %r changed the data held by the reader of %r' % (b, case[1]))
        elif case[0] == 'cli':
            n, t, m, title, dens = {m[0]: m for m in menu()}[case[1]]
            open('x.dat', 'w').write(t)
            run = cli.quantas(['soec', 'x.dat'])
            r.steps += 1
            r.see(n)
            if m is None:
                if run.crashed or not run.error:
                    r.fail('cli:' + n, 'not refused: %s %s' % (run.output[-300:], run.why()))
            else:
                if run.crashed or run.error:
                    r.fail('cli:' + n, '%s %s' % (run.output[-300:], run.why()))
                    return r
                data, info = cli.h5('x_SOEC.hdf5')
                if not close(data['stiffness'][0], m, rtol=1e-13):
                    r.fail('cli:tensor', '%r in the results, %r in the file' % (data['stiffness'][0], m))
                out = run.output.splitlines()
                k = [i for i, l in enumerate(out) if l.startswith('Stiffness matrix')]
                shown = [[float(x) for x in l.split()] for l in out[k[0] + 1:k[0] + 7]]
                if not close(shown, m, atol=6e-5):
                    r.fail('cli:report', 'reported %r' % (shown,))
                if ('Density: not provided' in run.output) != (dens is None) or \
                        (dens and 'Density: %s kg' % float(dens) not in run.output):
                    r.fail('cli:density', 'wrong density in the report')
                if title and 'Elastic analysis of ' + title not in run.output:
                    r.fail('cli:title', 'title not reported')
        else:
            rows = rows_of(T['hap'], 'complete')
            for pre in ('\n', '  \n', '\n\n'):
                for title in (None, 'T'):
                    open('x.dat', 'w').write(pre + text(rows, title, '3178'))
                    run = cli.quantas(['soec', 'x.dat'])
                    r.steps += 1
                    r.see(pre, title)
                    ok = run.error or close(cli.h5('x_SOEC.hdf5')[0]['stiffness'][0], T['hap'])
                    if run.crashed or not ok:
                        r.fail('blankfirst', 'first line empty: neither read nor refused %s' % run.why())
    return r
