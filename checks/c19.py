"""C19 files: every command run in every bounded situation of names, links,
existing files and answers; a small model of what it may write is compared with
the folder before and after."""
import itertools
import os

import numpy as np

from checks import c09, c10, c15, c18
from mc import cli
from mc import systems as sy
from mc.core import Result, Timeout, horizon, scratch

PROPERTY = 'C19'
RULE = ('commands x input names x output options x existing files, folders and links at each place the command may write x sequences of answers (including none), '
        'export dialogues up to the depth, and pairs and triples of runs; every file of the folder compared before and after, results with those of a run in an empty folder')
ASSUMPTIONS = ['result files are the HDF5 files and the exported tables; the log of a run, its figures and generated inputs are made anew at each run, unless that would destroy an input',
               'the checks run in scratch folders made for them']


def solid(k=0):
    return sy.Solid(V0=75. + k, nus=[[0., 0., 0., 9. + k, 12., 14.]])


def text_of(cmd, k=0):
    if cmd == 'ha':
        s = solid(k)
        return sy.yaml_text(s, sy.volumes(s, 2))
    if cmd == 'qha':
        s = solid(k)
        return sy.yaml_text(s, sy.volumes(s, 6))
    if cmd == 'soec':
        C = c15.isotropic(100. + k, 60.)
        return 'x\n' + '\n'.join(' '.join('%.4f' % v for v in r) for r in C) + '\n3000.\n'
    return 'JOB\nx\nFORMAT\np v\nDATA\n' + ''.join('%.4f %.4f\n' % (p, 80. + k - p * .7 + p * p * .02) for p in range(8))


TAG = {'ha': '_HA', 'qha': '_QHA', 'soec': '_SOEC'}
FIGS = ['E', 'LC', 'G', 'Nu', 'waves']
# one fit: murnaghan etc. are decided by C10
FIT = ['v', '2', '3', '', 'n', 'n', 'n', 'n', 'n', 'n']


def state(d='.'):
    """what every name of the tree is"""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            k = os.path.relpath(p, d)
            if os.path.islink(p):
                body = open(p, 'rb').read() if os.path.isfile(p) else None
                out[k] = ('link', os.readlink(p), body)
            elif os.path.isdir(p):
                out[k] = ('dir',)
            else:
                out[k] = ('file', open(p, 'rb').read())
    return out


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def body(st, k):
    v = st.get(k)
    return None if v is None or v[0] == 'dir' else v[-1]


def put(name, content):
    d = os.path.dirname(name)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(name, 'wb') as f:
        f.write(content if isinstance(content, bytes) else content.encode())


def occupy(how, name, inp):
    """something already at name; False when that is not possible"""
    if how == 'none' or not os.path.isdir(os.path.dirname(name) or '.'):
        return how == 'none'
    if os.path.lexists(name):
        return how == 'asis'
    if how == 'file':
        put(name, 'earlier content of %s\n' % name)
    elif how == 'dir':
        os.makedirs(name)
    elif how == 'link':
        os.symlink(os.path.relpath(inp, os.path.dirname(name) or '.'), name)
    elif how == 'hard':
        os.link(inp, name)
    elif how == 'other':
        put('victim', 'the file of someone else\n')
        os.symlink(os.path.relpath('victim', os.path.dirname(name) or '.'), name)
    elif how == 'dangling':
        os.symlink('nowhere', name)
    else:
        return False
    return True


def invoke(args, answers):
    try:
        with horizon(60):
            return cli.quantas(args, answers)
    except Timeout:
        return None


_ref = {}


def reference(cmd, k, opts):
    key = (cmd, k, tuple(opts))
    if key not in _ref:
        with scratch():
            put('r', text_of(cmd, k))
            run = invoke([cmd, 'r'] + list(opts), [])
            _ref[key] = cli.h5('r%s.hdf5' % TAG[cmd])[0] if os.path.exists('r%s.hdf5' % TAG[cmd]) else run.output
    return _ref[key]


def good(path, ref):
    try:
        D = cli.h5(path)[0]
    except Exception:
        return False
    return sorted(D) == sorted(ref) and all(D[k][0].shape == ref[k][0].shape and np.allclose(D[k][0], ref[k][0], rtol=1e-9, atol=1e-12, equal_nan=True) for k in ref)


def agreed(answers):
    """True, False, or None when the answers end"""
    for a in answers:
        if a.strip().lower() in ('y', 'yes', 'true', '1', 't', 'on'):
            return True
        if a.strip().lower() in ('', 'n', 'no', 'false', '0', 'f', 'off'):
            return False
    return None


def samefile(a, b):
    return os.path.exists(a) and os.path.exists(b) and os.path.samefile(a, b)


def calc(r, key, cmd, inp, out, opts, answers, k=0, where=''):
    """one run in the present folder"""
    base = os.path.splitext(inp)[0]
    if cmd == 'eosfit':
        res, log, figs = None, (out if out is not None else base) + '.log', []
    else:
        res = out + '.hdf5' if out is not None else base + TAG[cmd] + '.hdf5'
        log = os.path.splitext(res)[0] + '.txt'
        figs = [os.path.splitext(res)[0] + '_%s.png' % f for f in FIGS] if '-p' in opts else []
    outs = [o for o in [res, log] + figs if o]
    refuse = any(os.path.isdir(o) or not os.path.isdir(os.path.dirname(o) or '.') or samefile(o, inp) for o in outs)
    exists = res is not None and os.path.exists(res)
    before = state()
    run = invoke([cmd, inp] + ([] if out is None else ['-o', out]) + list(opts), answers if cmd != 'eosfit' else FIT)
    after = state()
    r.steps += 1
    say = '%s %r -o %r %r, answers %r, %s, before %r' % (cmd, inp, out, opts, answers, where, {n: v[:2] if v[0] == 'link' else v[0] for n, v in before.items()})
    if run is None:
        r.fail(key + ':hang', say)
        return
    if run.crashed:
        r.fail(key + ':crash', '%s\n%s' % (say, run.why()))
        return
    diff = changed(before, after)
    norm = lambda o: os.path.relpath(os.path.realpath(o), os.path.realpath('.'))
    # names that stand for the same file
    ok = set()
    if not refuse:
        ok.update(norm(o) for o in [log] + figs)
        if res is not None and (not exists or agreed(answers)):
            ok.add(norm(res))
    bad = [n for n in diff if norm(n) not in ok]
    if body(before, os.path.relpath(inp)) != body(after, os.path.relpath(inp)):
        r.fail(key + ':input', 'the input file was changed: %s' % say)
        return
    if bad:
        r.fail(key + ':files', 'changed %r: %s' % (bad, say))
        return
    if refuse:
        if not run.error:
            r.fail(key + ':silent', 'the output can not be written, no error: %s' % say)
        return
    if run.error:
        r.fail(key + ':refused', '%s: %s' % (run.output[-300:], say))
        return
    if not os.path.isfile(log) or not body(after, os.path.relpath(log)):
        r.fail(key + ':log', 'no log %r: %s' % (log, say))
    if res is not None:
        if not exists or agreed(answers):
            if not good(res, reference(cmd, k, opts if key == 'options' else [])) and '-p' not in opts:
                r.fail(key + ':results', 'the results are not those of the input: %s' % say)
        for f in figs:
            if norm(f) != norm(res) and not (os.path.exists(f) and open(f, 'rb').read(8) == b'\x89PNG\r\n\x1a\n'):
                r.fail(key + ':figure', '%r: %s' % (f, say))
    r.see(key, cmd, inp, out, tuple(opts), tuple(answers), where)


INPUTS = {'ha': ['job.yaml', 'job.txt', 'job', 'job.hdf5', 'job_HA.txt', 'job.v1.yaml', './job.txt', 'sub/job.txt', 'my job.txt', '.job', 'jöb.txt', '_HA.txt', 'job.']}
for _c in ('qha', 'soec'):
    INPUTS[_c] = [n.replace('_HA', TAG[_c]) for n in INPUTS['ha']]
INPUTS['eosfit'] = ['job.dat', 'job.log', 'job', './job.log', 'sub/job.log', 'my job.log', '.log', 'job.1.log', 'job.']


def outs_for(inp):
    base = os.path.splitext(os.path.basename(inp))[0]
    d = os.path.dirname(inp)
    alt = os.path.join(d, '..', os.path.basename(os.path.abspath('.')), base) if not d else None
    return [None, 'out', base, './' + base, 'sub/' + base, 'sub/../' + base, 'out.v2', 'missing/out', 'folder', inp, os.path.splitext(inp)[0], '', 'a b', base.upper()]


PRE = ['none', 'file', 'link', 'dir', 'hard', 'dangling']
SITES = ['none', 'file', 'dir', 'link', 'hard', 'other', 'dangling']
ANS = [[], ['n'], ['y'], [''], ['maybe', 'y'], ['maybe', 'no'], ['Yes'], ['what'], ['n', 'y'], ['y', 'n']]


def cases(tier):
    th = tier == 'thorough'
    for cmd in ('ha', 'qha', 'eosfit'):
        for inp in INPUTS[cmd]:
            yield ['names', cmd, inp]
    for inp in INPUTS['soec'] if th else ['job.txt', 'job_SOEC.txt', 'job.hdf5']:
        for out in outs_for(inp) if th else [None, os.path.splitext(inp)[0], './' + os.path.splitext(inp)[0], 'folder', 'sub/out']:
            yield ['names', 'soec', inp, [out]]
    for cmd in ('ha', 'qha', 'eosfit', 'soec'):
        for s in SITES:
            yield ['sites', cmd, s]
    for n in (FIGS if th else ['E', 'waves']):
        yield ['figures', n]
    for cmd in ('ha', 'qha'):
        for a in range(len(ANS)):
            yield ['history', cmd, a, 3 if th else 2]
    for cmd in OPTIONS:
        n = len(OPTIONS[cmd])
        for first in range(-1, n):
            yield ['options', cmd, first, min(n, 5) if th else 2 if cmd == 'qha' else 3]
    for cmd in ('ha', 'qha', 'eosfit', 'soec'):
        yield ['badinput', cmd]
    for prog in GEN:
        yield ['inpgen', prog]
    for kind in ('ha', 'qha', 'soec'):
        for ex in range(4):
            for pre in PRE:
                yield ['export', kind, ex, 4 if th else 3, pre]


# options that have nothing to do with files; whatever their combination
OPTIONS = {'ha': [['-q'], ['-d'], ['-T', '0', '20', '10'], ['--eunit', 'eV'], ['--vunit', 'bohr'], ['--funit', 'THz'], ['--tunit', 'C']],
           'qha': [['-q'], ['-d'], ['-s', 'td'], ['-m', 'eos'], ['-T', '300', '320', '10'], ['-P', '0', '1', '0.5'], ['--fdeg', '2'], ['--edeg', '2'], ['--eos', 'V'],
                   ['--eunit', 'Ry'], ['--vunit', 'bohr'], ['--tunit', 'C'], ['--punit', 'kbar'], ['--funit', 'THz']],
           'soec': [['-q'], ['-d'], ['--dpi', '30']],
           'eosfit': [['--punit', 'GPa'], ['--vunit', 'A']]}
GEN = ['phonopy', 'crystal', 'one', 'qha', 'soec', 'vasp']


def bystanders():
    for n in ('job.bak', 'job_HA', 'other.hdf5', 'out.dat', 'sub/other.txt', 'folder/keep', 'quantas_ha.txt', 'job.yaml~', 'job_HA.hdf5.old', 'list2'):
        if not os.path.lexists(n):
            put(n, 'bystander %s\n' % n)
    os.makedirs('folder.hdf5', exist_ok=True)
    os.makedirs('folder.log', exist_ok=True)


def run_case(case):
    r = Result()
    kind, cmd = case[0], case[1]
    if kind == 'names':
        inp = case[2]
        for out in outs_for(inp) if cmd != 'soec' else case[3]:
            for pre, ans in (('none', []), ('file', ['y']), ('file', ['n']), ('file', []))[:4 if cmd != 'soec' or len(case[3]) == 1 else 3]:
                if pre == 'file' and cmd == 'eosfit' and ans != []:
                    continue
                with scratch():
                    put(inp, text_of(cmd))
                    bystanders()
                    base = out if out is not None else os.path.splitext(inp)[0] + TAG.get(cmd, '')
                    for e in ('.hdf5', '.txt', '.log'):
                        if pre == 'file':
                            occupy('file', base + e, inp)
                    calc(r, 'names', cmd, inp, out, [], ans, where=pre)
                    if cmd != 'soec' and out != '':       # absolute names
                        calc(r, 'names', cmd, os.path.abspath(inp), out if out is None else os.path.abspath(out), [], ans, where='again, absolute')
    elif kind == 'sites':
        for inp, out in (('job.yaml', None), ('job.txt', 'job'), ('in', 'res')):
            b = out if out is not None else os.path.splitext(inp)[0] + TAG.get(cmd, '')
            for s2 in SITES if cmd != 'soec' else SITES[:3]:
                if s2 == case[2] and s2 in ('other', 'dangling'):
                    continue
                for ans in (ANS if cmd in ('ha', 'qha') and s2 in ('none', 'file') else [['y'], ['n'], []]):
                    if cmd == 'soec' and ans == []:
                        continue
                    with scratch():
                        put(inp, text_of(cmd))
                        bystanders()
                        e1, e2 = ('.hdf5', '.txt') if cmd != 'eosfit' else ('.log', '.hdf5')
                        if not occupy(case[2], b + e1, inp):
                            continue
                        if not occupy(s2, b + e2, inp):
                            continue
                        calc(r, 'sites', cmd, inp, out, [], ans, where='%s %s' % (case[2], s2))
        # the input itself is a link
        for inp, target, out in (('in.yaml', 'real.txt', 'real'), ('in.yaml', 'real.hdf5', 'real'), ('in.yaml', 'in_HA.txt', None), ('in.yaml', 'real.log', 'real')):
            if case[2] != 'none' or cmd == 'soec':
                break
            for hard in (False, True):
                with scratch():
                    target = target.replace('_HA', TAG.get(cmd, ''))
                    put(target, text_of(cmd))
                    (os.link if hard else os.symlink)(target, inp)
                    calc(r, 'linked', cmd, inp, out, [], ['y'], where=target)
    elif kind == 'figures':
        for s in ('none', 'file', 'link', 'dir', 'hard'):
            with scratch():
                put('job.dat', text_of('soec'))
                occupy(s, 'job_SOEC_%s.png' % cmd, 'job.dat')
                calc(r, 'figures', 'soec', 'job.dat', None, ['--polar', '-p'], [], where=s)
        with scratch():
            put('x_%s.png' % cmd, text_of('soec'))
            calc(r, 'figures', 'soec', 'x_%s.png' % cmd, 'x', ['--polar', '-p'], [], where='named')
            calc(r, 'figures', 'soec', 'x_%s.png' % cmd, 'x', [], [], where='named, no figures')
    elif kind == 'options':
        # each combination of the options that starts with this one
        later = OPTIONS[cmd][case[2] + 1:]
        sets = [[]] if case[2] < 0 else [[OPTIONS[cmd][case[2]]] + list(c) for n in range(case[3]) for c in itertools.combinations(later, n)]
        for opts in sets:
            opts = sum(opts, [])
            for s in ('none', 'file', 'other', 'link'):
                for out in (None, 'job'):
                    for ans in (([], ['n'], ['y']) if s in ('file', 'other') and cmd != 'eosfit' else [['y']]):
                        if len(opts) > 4 and (out is None or s == 'none') or (cmd == 'soec' and (out is None or s in ('none', 'link') or s == 'other' and ans)):
                            continue
                        with scratch():
                            put('job.yaml', text_of(cmd))
                            bystanders()
                            if occupy(s, ('job' if out else 'job' + TAG.get(cmd, '')) + ('.hdf5' if cmd != 'eosfit' else '.log'), 'job.yaml'):
                                calc(r, 'options', cmd, 'job.yaml', out, opts, ans, where=s)
    elif kind == 'history':
        # the input changes between the runs: the results are those of the last agreed one
        for rest in itertools.product([0, 1, 2, 4, 5], repeat=case[3] - 1):
            with scratch():
                seq = [case[2]] + list(rest)
                put('job', text_of(cmd, 0))
                calc(r, 'history', cmd, 'job', None, [], [], 0, 'first')
                last = 0
                for n, a in enumerate(seq):
                    put('job', text_of(cmd, n + 1))
                    calc(r, 'history', cmd, 'job', None, [], ANS[a], n + 1, repr(seq))
                    if agreed(ANS[a]):
                        last = n + 1
                    if not good('job%s.hdf5' % TAG[cmd], reference(cmd, last, [])):
                        r.fail('history:results', '%s, answers %r: the file does not hold the results of run %d' % (cmd, [ANS[x] for x in seq], last))
                r.see('history', cmd, tuple(seq))
    elif kind == 'badinput':
        for name, content in list(c18.FOREIGN.items()) + [('half', text_of(cmd)[:len(text_of(cmd)) // 2].encode())]:
            for out in (None, 'job', 'old'):
                for inp in ('job.txt', 'job.log', 'job.hdf5'):
                    with scratch():
                        put(inp, content)
                        put('old.hdf5', 'old results')
                        put('job%s.hdf5' % TAG.get(cmd, ''), 'old results') if not os.path.exists('job%s.hdf5' % TAG.get(cmd, '')) else None
                        bystanders()
                        before = state()
                        run = invoke([cmd, inp] + ([] if out is None else ['-o', out]), ['y'] * 3)
                        after = state()
                        r.steps += 1
                        logs = {'job%s.txt' % TAG.get(cmd, ''), 'job.log', 'job.txt', 'old.txt', 'old.log'}
                        bad = [n for n in changed(before, after) if n not in logs or n == inp]
                        if run is None or run.crashed:
                            r.fail('badinput:crash', '%s %r (%s): %s' % (cmd, inp, name, run and run.why()))
                        elif bad:
                            r.fail('badinput:files', '%s %r -o %r of a damaged input (%s) changed %r' % (cmd, inp, out, name, bad))
                        r.see(cmd, name, out, inp)
    elif kind == 'inpgen':
        inpgen(r, cmd)
    else:
        export(r, cmd, *case[2:])
    return r


def generator(prog):
    """arguments, files"""
    if prog == 'phonopy':
        a, f, e = c18.phonon('phonopy', 1, 2, 2)
    elif prog == 'crystal':
        a, f, e = c18.phonon('crystal', 1, 2, 2)
    elif prog == 'one':
        a, f, e = c18.phonon('crystal', 2, 1, 1, dim='id')
        a = ['ha', 'out0', '-i', 'crystal']
        del f['list']
    elif prog == 'qha':
        a, f, e = c18.qha(1, 4, 'id')
    else:
        a, f, e = c18.soec('crystal' if prog == 'soec' else 'vasp', c18.tensor(0))
    return a, f


def inpgen(r, prog):
    args, files = generator(prog)
    ext = '.yaml' if args[0] == 'ha' else '.dat'
    with scratch():
        c18.put(files)
        invoke(['inpgen'] + args + ['-o', 'ref'], ['Title'])
        want = open('ref' + ext, 'rb').read() if os.path.exists('ref' + ext) else None
    if want is None:
        r.fail('inpgen:run', '%r made nothing' % args)
        return
    names = list(files)
    read = [n for n in names]
    sites = [None, 'gen', './gen', 'sub/gen', 'missing/gen', 'folder', '']
    sites += sorted(set(os.path.splitext(n)[0] for n in names) | set('./' + os.path.splitext(n)[0] for n in names))
    todo = [(o, p, None) for o in sites for p in ('none', 'file')]
    todo += [('gen', how, n) for n in names for how in ('link', 'hard')]
    todo += [('gen', how, names[0]) for how in ('dir', 'other', 'dangling')]
    if args[1] + ext != args[1]:        # the input itself carries the name of the output
        todo += [('same', 'rename', None)]
    for (out, how, target), ans in itertools.product(todo, (['Title'], [])):
        with scratch():
            a = list(args)
            c18.put(files)
            os.makedirs('folder' + ext)
            os.makedirs('sub')
            put('bystander', 'x')
            put('bystander' + ext, 'x')
            if how == 'rename':
                os.rename(a[1], 'same' + ext)
                a[1] = 'same' + ext
            o = out + ext if out is not None else ('quantas_ha.yaml' if args[0] == 'ha' else os.path.splitext(a[1])[0] + '_soec_input.dat')
            if how not in ('none', 'rename') and not occupy(how, o, target or names[0]):
                continue
            inputs = [a[1] if n == args[1] else n for n in read]
            refuse = os.path.isdir(o) or not os.path.isdir(os.path.dirname(o) or '.') or any(samefile(o, n) for n in inputs)
            before = state()
            run = invoke(['inpgen'] + a + ([] if out is None else ['-o', out]), ans)
            after = state()
            r.steps += 1
            say = 'inpgen %r -o %r, answers %r, %s %s' % (a, out, ans, how, target)
            diff = changed(before, after)
            norm = lambda n: os.path.relpath(os.path.realpath(n), os.path.realpath('.'))
            bad = [n for n in diff if refuse or norm(n) != norm(o)]
            if run is None or run.crashed:
                r.fail('inpgen:crash', '%s\n%s' % (say, run and run.why()))
            elif bad:
                r.fail('inpgen:files', '%s changed %r' % (say, bad))
            elif refuse and not run.error:
                r.fail('inpgen:silent', '%s: no error reported' % say)
            elif not refuse and (run.error or run.code not in (0, 1)):
                r.fail('inpgen:refused', '%s: %s' % (say, run.output[-300:]))
            elif not refuse and ans and body(after, os.path.relpath(o)) != want:
                r.fail('inpgen:content', '%s: %r is not what was asked' % (say, o))
            elif not refuse and not ans and diff and body(after, os.path.relpath(o)) != want.replace(b'Title', b'Unknown'):
                r.fail('inpgen:end', '%s: no title given, but %r written: %r' % (say, diff, (body(after, os.path.relpath(o)) or b'')[:100]))
            r.see(prog, out, how, target, len(ans))


# ---- export: the dialogue
def dialogue(keys, base, inp, answers):
    """the names written, in order; runs on the present folder (exists, samefile)"""
    it = iter(answers)
    made = []

    def yes():
        for a in it:
            if a.strip().lower() in ('y', 'yes'):
                return True
            if a.strip().lower() in ('', 'n', 'no'):
                return False
        return None
    while True:
        for sel in it:
            if sel in keys:
                break
        else:
            return made
        name = '%s_%s.dat' % (base, sel)
        while True:
            blocked = os.path.isdir(name) or not os.path.isdir(os.path.dirname(name) or '.') or samefile(name, inp)
            if not blocked:
                if not (os.path.exists(name) or os.path.realpath(name) in [os.path.realpath(m[0]) for m in made]):
                    break
                y = yes()
                if y is None:
                    return made
                if y:
                    break
            for name in it:
                if name.strip():
                    name = name.strip()
                    break
            else:
                return made
        made.append((name, sel))
        if not yes():
            return made


def export(r, kind, ex, depth, pre):
    keys = {'ha': ['F', 'S'], 'qha': ['G', 'VT'], 'soec': ['E', 'Nu']}[kind]
    opts = ['--polar'] if kind == 'soec' else []
    with scratch() as d:
        put('r', text_of(kind))
        invoke([kind, 'r'] + opts, [])
        data = open('r%s.hdf5' % TAG[kind], 'rb').read()
    tables = {}
    for k in keys:
        with scratch():
            put('x.hdf5', data)
            run = invoke(['export', kind, 'x.hdf5'], [k, 'n'])
            if not os.path.exists('x_%s.dat' % k):
                r.fail('export:run', '%s %s: %s' % (kind, k, run and run.output[-300:]))
                return
            tables[k] = open('x_%s.dat' % k, 'rb').read()
    # the file exported has the name of a table, the table exists, is a link, is a folder
    inp = ['res.hdf5', 'res_%s.dat' % keys[0], 'res.x.hdf5', 'sub/res.hdf5'][ex]
    base = os.path.splitext(inp)[0] if ex != 1 else 'res_%s' % keys[0]
    first = '%s_%s.dat' % (base, keys[0])
    names = ['new.dat', 'old.dat', inp, './' + inp, 'link', 'folder', 'missing/x.dat', first, 'y']
    if True:
        for tail in itertools.product(['n', 'y'] + names if pre == 'none' else ['', 'n', 'y', 'maybe'] + names, repeat=depth - 1 if pre in ('none', 'file') else 2):
            if pre == 'none' and tail[0] not in ('y', 'n'):
                continue
            if depth > 3 and tail.count('n') + tail.count('y') == 0 and pre == 'file':
                continue
            seqs = [[keys[0]] + list(tail) + ['n']]
            if pre == 'none' and tail[0] == 'y':
                seqs = [[keys[0], 'y', k] + list(tail[1:]) + ['y', 'n'] for k in (keys[0], keys[1], 'nonsense', '')]
            for ans in seqs:
                with scratch():
                    put(inp, data)
                    put('old.dat', 'an older table\n')
                    os.makedirs('folder')
                    os.symlink(inp, 'link')
                    put('bystander', 'x')
                    if pre != 'none' and not occupy(pre, first, inp):
                        continue
                    want = dialogue(keys, base, inp, ans)
                    before = state()
                    run = invoke(['export', kind, inp], ans)
                    after = state()
                    r.steps += 1
                    say = 'export %s %s, answers %r, %s' % (kind, inp, ans, pre)
                    norm = lambda n: os.path.relpath(os.path.realpath(n), os.path.realpath('.'))
                    last = {norm(n): k for n, k in want}
                    diff = set(norm(n) for n in changed(before, after))
                    if run is None or run.crashed:
                        r.fail('export:crash', '%s\n%s' % (say, run and run.why()))
                    elif body(after, os.path.relpath(inp)) != data:
                        r.fail('export:input', '%s: the results were overwritten' % say)
                    elif diff - set(last):
                        r.fail('export:files', '%s changed %r, agreed %r' % (say, sorted(diff), want))
                    else:
                        for n, k in last.items():
                            if body(after, n) != tables[k]:
                                r.fail('export:content', '%s: %r does not hold %s' % (say, n, k))
                                break
                    r.see(kind, inp, pre, tuple(ans))
