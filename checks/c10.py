"""C10 the interactive EoS session: every sequence of answers in the bound, run
through the real command; a small automaton of the documented dialogue says which
fits it must have made, with which data, formulation, parameters and weights."""
import itertools
import re

import numpy as np

from mc import cli, eosref
from mc.core import Result, Timeout, horizon, isolated, scratch

PROPERTY = 'C10'
RULE = ('answer sequences over the menu alphabet: all single-fit sessions (data x formulation x order x fixed set x weights, and every edited parameter), all '
        'two- and three-fit histories over the decision alphabet, invalid answers (single and repeated) and end of input at every prompt')
ASSUMPTIONS = ['a default answer stands for the value displayed with the prompt (parameters: five decimals)',
               'the fit itself is decided by C08: here the numbers must be those of a fresh fit with the selected data and options',
               'parameters that are not finite make a fit of no meaning: the session only has to go on']

NAMES = {'1': 'Murnaghan', '2': 'BirchMurnaghan', '3': 'NaturalStrain', '4': 'Vinet', '5': 'Tait'}
LABEL = {'1': 'murnaghan', '2': 'birchmurnaghan', '3': 'naturalstrain', '4': 'vinet', '5': 'tait'}
DATA = {'v': 'Volume', 'a': 'a-axis', 'b': 'b-axis', 'c': 'c-axis'}
ORDERS = {k: list(eosref.ORDERS[n]) for k, n in NAMES.items()}
P = [0., .7, 1.5, 2.4, 3.3, 4.1, 5.2, 6.4, 7.7, 9.]
NOISE = [.00, .03, -.02, .01, -.03, .02, .00, -.01, .02, -.01]


def dataset(kind):
    """columns of the input file"""
    from scipy.optimize import brentq
    out = {}
    par = (50., 5.3, None, 112.5)

    def vol(p):
        return brentq(lambda v: eosref.pressure('BirchMurnaghan', 3, (par[0], par[1], 0., par[3]), v) - p, 60., 120.)
    for n, c in enumerate('vabc'):
        if c == 'v':
            x = [vol(p + e) for p, e in zip(P, NOISE)]
        else:
            x = [(4. + n) * (vol(p * (1. + .15 * n) - e) / par[3]) ** (1. / 3.) for p, e in zip(P, NOISE)]
        out[c] = [round(i, 5) for i in x]
    out['p'] = list(P)
    out['sigmap'] = [round(.01 + .004 * (i % 4), 4) for i in range(10)]
    for n, c in enumerate('vabc'):
        out['sigma' + c] = [round((.05 if c == 'v' else .003) * (1. + .5 * ((i + n) % 3)), 5) for i in range(10)]
    keep = {'all': None, 'vonly': 'p v', 'aonly': 'p a', 'sp': 'p v c sigmap', 'sv': 'p v b sigmav', 'va': 'p v a sigmap sigmav sigmaa'}[kind]
    return out if keep is None else {k: out[k] for k in keep.split()}


def write(kind, fn='in.dat'):
    d = dataset(kind)
    cols = list(d)
    with open(fn, 'w') as f:
        f.write('JOB\nquartz-like\nFORMAT\n%s\nDATA\n' % ' '.join(cols))
        for i in range(len(P)):
            f.write(' '.join('%.5f' % d[c][i] for c in cols) + '\n')
    return {k: np.array(v) for k, v in d.items()}


class End(Exception):
    pass


def fit(key, values, p, guess, sv, sp, order, linear, fix):
    return eosref.make(NAMES[key]).fit(values.copy(), p.copy(), guess=list(guess), sigmaV=None if sv is None else sv.copy(),
                                       sigmaP=None if sp is None else sp.copy(), order=order, linear=linear, fixed=list(fix))


CACHE = {}


def model(data, answers):
    """the dialogue as documented: (list of fits, ended, answers used)"""
    it = iter(answers)
    used = [0]
    fits = []

    def nxt():
        try:
            a = next(it)
        except StopIteration:
            raise End
        used[0] += 1
        return a

    def choose(valid, default=None, conv=str):
        while True:
            a = nxt()
            if a == '':
                if default is None:
                    continue
                return default
            try:
                a = conv(a)
            except ValueError:
                continue
            if a in valid:
                return a

    def confirm(default=False):
        while True:
            a = nxt().lower().strip()
            if a in ('y', 'yes'):
                return True
            if a in ('n', 'no'):
                return False
            if a == '':
                return default

    def value(default):
        while True:
            a = nxt()
            if a == '':
                return default
            try:
                return float(a)
            except ValueError:
                continue
    avail = [k for k in 'vabc' if k in data]
    form, order = '1', 2
    try:
        again = True
        while again:
            q = choose(avail)
            values, p = data[q], data['p']
            change_data, guess = False, None
            while not change_data:
                form = choose(list(NAMES), form)
                order = choose(ORDERS[form], order if order in ORDERS[form] else ORDERS[form][0], int)
                if guess is None:
                    guess = [float(x) for x in eosref.make(NAMES[form]).guess(values.copy(), p.copy())]
                change_eos = False
                while not change_eos:
                    shown = list(guess)
                    if confirm():
                        guess = [value(float(np.round(x, 5))) for x in guess]
                    fix = [1, 1, 1, 1]
                    if confirm():
                        fix = [0 if confirm() else 1 for _ in range(4)]
                    w = [None, None]
                    if 'sigmap' in data or 'sigma' + q in data:
                        if confirm(True):
                            if 'sigmap' in data and confirm(True):
                                w[0] = data['sigmap']
                            if 'sigma' + q in data and confirm(True):
                                w[1] = data['sigma' + q]
                    k = (q, form, order, tuple(guess), tuple(fix), w[0] is None, w[1] is None)
                    if k not in CACHE:
                        CACHE[k] = fit(form, values, p, guess, w[1], w[0], order, q != 'v', fix)
                    out = CACHE[k]
                    fits.append({'q': q, 'form': form, 'order': order, 'par': list(guess), 'shown': shown, 'fix': fix, 'wp': w[0] is not None, 'wv': w[1] is not None, 'out': out,
                                 'values': values, 'p': p})
                    if confirm():
                        guess = [float(x) for x in out.beta]
                    change_data = not confirm()
                    if change_data:
                        change_eos = True
                    else:
                        change_eos = confirm()
            again = confirm()
        return fits, True, used[0]
    except End:
        return fits, False, used[0]


NUM = r'([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))'


def reports(text):
    """the fit reports found in a transcript"""
    out = []
    parts = re.split(r'EOS results for (.+?) fitting', text)
    for name, body in zip(parts[1::2], parts[2::2]):
        rep = {'name': name.strip(), 'par': [], 'flags': [], 'rows': []}
        m = re.search(r'EOS formulation:\s*(.+)', body)
        rep['form'] = re.sub('[^a-z]', '', m.group(1).lower()) if m else None
        m = re.search(r'EOS order:\s*(\d+)', body)
        rep['order'] = int(m.group(1)) if m else None
        rep['wp'] = re.search(r'Results weighted for pressure', body) is not None
        rep['wv'] = re.search(r'Results weighted for (?!pressure)', body) is not None
        for m in re.finditer(r'(?m)^  (\S+)\s+=\s+' + NUM + r' \+/-\s+' + NUM + r'(.*)$', body):
            rep['par'].append((m.group(1), float(m.group(2)), float(m.group(3))))
            rep['flags'].append(('FIXED' in m.group(4), 'IMPLIED' in m.group(4)))
        rep['cov'], rep['var'], rep['head'] = [], None, None
        m = re.search(r'Residual variance:\s*' + NUM, body)
        if m:
            rep['var'] = float(m.group(1))
        if 'Covariance matrix' in body:
            for line in body.split('Covariance matrix', 1)[1].split('Residual', 1)[0].splitlines()[1:]:
                if line.strip():
                    rep['cov'].append([float(x) for x in line.split()])
        if 'Calculated data' in body:
            head = [l for l in body.split('Calculated data', 1)[1].splitlines() if 'eps_P' in l]
            rep['head'] = re.split(r'\s{2,}', head[0].strip()) if head else None
            for line in body.split('Calculated data', 1)[1].splitlines():
                t = line.split()
                if len(t) == 5:
                    try:
                        rep['rows'].append([float(x) for x in t])
                    except ValueError:
                        pass
        out.append(rep)
    return out


def near(a, b, at=2e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= at + 2e-6 * np.abs(b)) | (np.isnan(a) & np.isnan(b)) | (a == b)))


LABELS = {'v': ['K0', "K'", "K''", 'V0']}
for _q in 'abc':
    LABELS[_q] = ['M0(%s)' % _q, "M'(%s)" % _q, "M''(%s)" % _q, '%s0' % _q]


def differs(f, rep):
    """what a report says otherwise than the fit it should describe, (key, message) or None"""
    want = (DATA[f['q']], LABEL[f['form']], f['order'])
    if (rep['name'], rep['form'], rep['order']) != want:
        return 'selection', 'reported %r, selected %r' % ((rep['name'], rep['form'], rep['order']), want)
    if (rep['wp'], rep['wv']) != (f['wp'], f['wv']):
        return 'weights', 'weights (pressure, data) reported %r, selected %r' % ((rep['wp'], rep['wv']), (f['wp'], f['wv']))
    out = f['out']
    if not hasattr(out, 'eps') or out.info >= 10000:
        # ODRPACK refused the problem: there are no results to report
        if rep['par'] or rep['rows']:
            return 'failed', 'results reported for a fit that failed (%s): %r' % (out.stopreason, rep['par'])
        return None
    if not np.all(np.isfinite(f['par'])) or not np.all(np.isfinite(out.beta)):
        return None
    if [p[0] for p in rep['par']] != LABELS[f['q']]:
        return 'labels', 'parameters reported %r, data %r' % (rep['par'], f['q'])
    if not near([p[1] for p in rep['par']], out.beta) or not near([p[2] for p in rep['par']], out.sd_beta):
        return 'fit', 'reported %r, a fresh fit with the selected options gives %r +/- %r' % (rep['par'], list(out.beta), list(out.sd_beta))
    impl = {2: (1, 2), 3: (2,), 4: ()}[f['order']]
    flags = [(f['fix'][i] == 0, i in impl) for i in range(4)]
    if rep['flags'] != flags:
        return 'flags', '(fixed, implied) reported %r, selected %r' % (rep['flags'], flags)
    for i in range(4):
        if f['fix'][i] == 0 and i not in impl and not (f['form'] == '1' and i == 2) and not near(rep['par'][i][1], f['par'][i]):
            return 'fixed', 'parameter %d fixed at %r but reported %r' % (i, f['par'][i], rep['par'][i][1])
    if np.all(np.isfinite(out.cov_beta)):
        # six digits of the largest value of each row; tinier ones are rounding errors of the inversion
        cov = np.array(rep['cov'])
        scale = np.sqrt(np.outer(np.abs(np.diag(out.cov_beta)), np.abs(np.diag(out.cov_beta))))
        if cov.shape != out.cov_beta.shape or np.any(np.abs(cov - out.cov_beta) > 2e-4 * scale + 1e-30):
            return 'covariance', 'covariances reported %s, the fit has %s' % (cov, out.cov_beta)
    if np.isfinite(out.res_var) and (rep['var'] is None or abs(rep['var'] - out.res_var) > 6e-5 + 1e-5 * abs(out.res_var)):
        return 'variance', 'residual variance reported %r, the fit has %r' % (rep['var'], out.res_var)
    unit = 'Volume (A^3)' if f['q'] == 'v' else f['q'] + '-axis (A)'
    if rep['head'] != [unit, 'eps_' + DATA[f['q']][0], 'Pressure (GPa)', 'P_obs (GPa)', 'eps_P']:
        return 'heading', 'the calculated data are headed %r' % (rep['head'],)
    rows = np.array(rep['rows'])
    if rows.shape != (len(f['p']), 5) or not near(rows[:, 0], f['values']) or not near(rows[:, 2], f['p']) or not near(rows[:, 3], out.y) or \
            not near(rows[:, 1], out.delta) or not near(rows[:, 4], out.eps):
        return 'table', 'the table of calculated data is not that of the fit:\n%r\n' % rows
    return None


def session(r, key, data, answers, limit=60):
    """runs the answers on the command; judges it against the automaton"""
    fits, ended, used = model(data, answers)
    try:
        with horizon(limit):
            run = cli.quantas(['eosfit', 'in.dat'], answers)
    except Timeout:
        r.fail(key + ':hang', 'no answer in %d s after %r' % (limit, answers))
        return fits, ended, None
    r.steps += max(1, used)
    what = 'answers %r' % (answers,)
    if isinstance(run.exc, Timeout):
        r.fail(key + ':hang', 'no answer in %d s after %r' % (limit, answers))
        return fits, ended, run
    if run.crashed:
        r.fail(key + ':crash', '%s\n%s' % (run.why(), what))
        return fits, ended, run
    if (run.code == 0) != ended:
        r.fail(key + ':end', 'exit %r; the session should have %sended: %s\n%s' % (run.code, '' if ended else 'not ', what, run.output[-400:]))
        return fits, ended, run
    reps = reports(run.output)
    if len(reps) != len(fits):
        r.fail(key + ':fits', '%d fits reported, %d asked for: %s' % (len(reps), len(fits), what))
        return fits, ended, run
    for n, (f, rep) in enumerate(zip(fits, reps)):
        bad = differs(f, rep)
        if bad:
            r.fail(key + ':' + bad[0], '%s: fit %d of %s' % (bad[1], n + 1, what))
            break
    return fits, ended, run


FIXES = [['n']] + [['y'] + ['y' if c else 'n' for c in bits] for bits in itertools.product((0, 1), repeat=4)]


def weights(data, q):
    """all answers to the weight questions"""
    sp, sv = 'sigmap' in data, 'sigma' + q in data
    if not sp and not sv:
        return [[]]
    return [['n']] + [['y'] + list(c) for c in itertools.product('yn', repeat=sp + sv)]


VALUES = ['5.25', '0', '-3', '1e3', 'nan', 'inf', '-inf', '1e400', '1e-300', 'abc|4.5', '1,5|2', ' 2.5']


INVALID = {'data': ['x', '', 'V', 'vv', '1', 'y'], 'form': ['0', '6', 'BM', 'v', '-1'], 'order': ['1', '5', 'x', '2.5', '-2', '99', 'nan'], 'conf': ['maybe', '1', 'x', 'yy', 'nope'],
           'value': ['abc', '1.2.3', '--', '1,5']}


def prompts(data, answers):
    """kind of the prompt each answer is given to (the automaton again)"""
    kinds = []
    for n in range(len(answers)):
        kinds.append(kind_after(data, answers[:n]))
    return kinds


def kind_after(data, answers):
    """kind of the next prompt"""
    import inspect
    box = []

    class Probe(list):
        pass

    def gen():
        for a in answers:
            yield a
        fr = inspect.currentframe().f_back          # nxt
        fr = fr.f_back                              # choose / confirm / value
        name = fr.f_code.co_name
        if name == 'choose':
            v = fr.f_locals['valid']
            name = 'data' if set(v) <= set('vabc') else 'form' if '1' in v else 'order'
        elif name == 'confirm':
            name = 'conf'
        box.append(name)
    model(data, gen())
    return box[0] if box else 'end'


def representative(kind):
    """complete sessions that go through every kind of prompt"""
    S = {'all': [['v', '2', '3', 'n', 'n', 'y', 'y', 'y', 'y', 'y', 'y', 'a', '4', '3', 'n', 'n', 'n', 'n', 'n', 'n'],
                 ['a', '3', '2', 'y', '', '4', '', '', 'y', 'n', 'y', 'n', 'n', 'y', 'n', 'y', 'n', 'y', 'n', 'n', 'n', 'n', 'n', 'n', 'n']],
         'vonly': [['v', '5', '4', 'y', '45.5', '', '-0.05', '', 'n', 'y', 'y', 'n', 'n', 'y', 'n', 'y', 'n', 'n', 'n', 'n', 'n']]}
    out = []
    data = {k: np.array(v) for k, v in dataset(kind).items()}
    for s in S[kind]:
        # close whatever is still open
        while not model(data, s)[1]:
            s = s + ['n' if kind_after(data, s) == 'conf' else {'data': 'v' if 'v' in data else 'a', 'form': '2', 'order': '3', 'value': ''}[kind_after(data, s)]]
        out.append(s[:model(data, s)[2]])
    return out


def cases(tier):
    th = tier == 'thorough'
    for kind, qs in (('all', 'vabc'), ('vonly', 'v'), ('aonly', 'a'), ('sp', 'vc'), ('sv', 'vb')):
        for q in qs:
            for form in NAMES:
                yield ['single', kind, q, form, tier]
    for q in 'va':
        for form in NAMES:
            for i in range(4):
                yield ['edit', q, form, i, tier]
    firsts = list(itertools.product('va', ['2 3', '4 2', '3 4'] + (['1 3', '5 3'] if th else []), ['n', 'mod'], ['n', 'fixkp']))
    for f in firsts:
        yield ['history', list(f), 3 if th else 2]
    yield ['three', tier]
    for col in range(-1, 6):
        yield ['few', col]
    for kind in ('all', 'vonly'):
        for n in range(len(representative(kind))):
            for at in range(4):
                yield ['invalid', kind, n, at, tier]


MOD = {'n': ['n'], 'mod': ['y', '', '5.5', '', '']}
FIX = {'n': ['n'], 'fixkp': ['y', 'n', 'y', 'n', 'n']}


def nexts():
    """everything that may follow a fit, as (answers, goes through the eos menu)"""
    out = []
    for upd in 'ny':
        for m, f in itertools.product(MOD, FIX):
            tail = MOD[m] + FIX[f] + ['']
            out.append([upd, 'y', 'n'] + tail)                                       # same data, same eos
            for eos in (['', ''], ['2', '3'], ['4', '']):
                out.append([upd, 'y', 'y'] + eos + tail)                            # change the eos
                for q in 'va':
                    out.append([upd, 'n', 'y', q] + eos + tail)                     # other data
    return out


def full(data, a):
    """closes a session: default answers to what is left, no more fits"""
    n = 0
    while not model(data, a)[1]:
        k = kind_after(data, a)
        a = a + ['n' if k == 'conf' else {'data': 'v' if 'v' in data else 'a', 'form': '', 'order': '', 'value': ''}[k]]
        n += 1
        assert n < 60
    return a


def run_case(case):
    r = Result()
    kind = case[0]
    with scratch():
        if kind == 'single':
            _, ds, q, form, tier = case
            data = write(ds)
            for order in ORDERS[form]:
                for fx in FIXES:
                    W = weights(data, q)
                    if tier != 'thorough' and sum(a == 'y' for a in fx) > 2:
                        W = W[:1] + W[1:2]
                    for w in W:
                        a = [q, form, str(order), 'n'] + fx + w
                        session(r, 'single', data, a + ['n', 'n', 'n'])
                        r.see(ds, q, form, order, fx, w)
        elif kind == 'edit':
            _, q, form, i, tier = case
            data = write('va')
            for v in VALUES:
                for order in ORDERS[form] if tier == 'thorough' else ORDERS[form][-1:]:
                    for fixed in (False, True):
                        a = [q, form, str(order), 'y'] + [''] * i + v.split('|') + [''] * (3 - i)
                        a += (['y'] + ['y' if k == i else 'n' for k in range(4)]) if fixed else ['n']
                        a += ['n', 'y', 'y', 'n', 'n', 'n', 'n', 'n', 'n', 'n']
                        session(r, 'edit', data, a)
                        r.see(q, form, i, v, order, fixed)
        elif kind == 'history':
            data = write('va')
            q, eos, m, f = case[1]
            a0 = [q] + eos.split() + MOD[m] + FIX[f] + ['']
            N = nexts()
            for n1 in N:
                a = a0 + [''] * (2 if True else 0) + n1
                session(r, 'history', data, full(data, a))
                r.see(case[1], n1)
                if case[2] > 2:
                    for n2 in N[::2]:
                        b = a + ['', ''] + n2
                        session(r, 'history', data, full(data, b))
                        r.see(case[1], n1, n2)
        elif kind == 'three':
            data = write('vonly')
            N = [[u] + t for u in 'ny' for t in (['y', 'n', 'n', 'n'], ['y', 'y', '4', '3', 'n', 'n'], ['y', 'y', '', '', 'y', '', '', '', '', 'n'], ['n', 'y', 'v', '', '', 'n', 'n'])]
            for n1, n2, n3 in itertools.product(N, repeat=3):
                a = ['v', '2', '3', 'n', 'n'] + n1 + n2 + n3
                session(r, 'three', data, full(data, a))
                r.see(n1, n2, n3)
        elif kind == 'few':
            # few points, or points of no use: a clean refusal, or a session that goes on
            good = write('va')
            L = open('in.dat').read().splitlines()
            head, body = L[:5], [x.split() for x in L[5:]]
            bad = [(['few', n], body[:n]) for n in range(6)] if case[1] < 0 else []
            for col in [c for c in range(6) if c == case[1]]:
                for v in ('0', '-1.5', 'nan', 'inf', '1e300', '1e-300', 'x', '7.5'):
                    bad.append(([col, v, 'one'], [[v if (i, j) == (3, col) else x for j, x in enumerate(row)] for i, row in enumerate(body)]))
                    bad.append(([col, v, 'all'], [[v if j == col else x for j, x in enumerate(row)] for i, row in enumerate(body)]))
            for name, rows in bad:
                open('in.dat', 'w').write('\n'.join(head + [' '.join(x) for x in rows]) + '\n')
                for q in 'va':
                    for form in NAMES:
                        for fx in (FIXES[0], FIXES[-1], FIXES[6]):
                            for w in ('n', 'y'):
                                a = [q, form, '', 'n'] + fx + (['n'] if w == 'n' else ['y'] * 3) + ['n'] * 6
                                try:
                                    with horizon(60):
                                        run = cli.quantas(['eosfit', 'in.dat'], a)
                                except Timeout:
                                    r.fail('few:hang', '%r %r' % (name, a))
                                    continue
                                r.steps += 1
                                r.see(name, q, form, fx, w, run.error)
                                if run.crashed or isinstance(run.exc, Timeout) or run.code != 0:
                                    r.fail('few', '%r, %r: exit %r %s' % (name, a, run.code, run.why()))
                        if run.error:
                            break
                    if run.error:
                        break
        else:
            _, ds, n, at, tier = case
            data = write(ds)
            s = representative(ds)[n]
            session(r, 'valid', data, s)
            for i in range(len(s)):
                if i % 4 != at:
                    continue
                k = kind_after(data, s[:i])
                bad = list(INVALID[k])
                if k in ('form', 'order', 'conf', 'value'):
                    pass
                for b in bad + [tuple(p) for p in itertools.product(bad, repeat=2)][::1 if tier == 'thorough' else 5]:
                    b = [b] if isinstance(b, str) else list(b)
                    session(r, 'invalid:' + k, data, s[:i] + b + s[i:])
                    session(r, 'invalid:' + k, data, s[:i] + b)
                    r.see(ds, n, i, b)
                session(r, 'eof', data, s[:i])
    return r
