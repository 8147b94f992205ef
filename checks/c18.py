"""C18 conversions: every output of a supported program in a bounded space of
synthetic ones, all lists of files, all sequences of conversions, and every
point where an output may be cut."""
import itertools
import os
import re

import numpy as np
import yaml

from mc import cli, outputs
from mc.core import Result, close, digest, horizon, isolated, scratch, Timeout
from checks import c12

PROPERTY = 'C18'
RULE = ('program x cell x atoms x q-points x list orders x names and folders: converted through the command line and compared with the data the output was made of; elastic outputs with '
        'each of the 21 constants different in turn; every cut (line and within lines), lost line and foreign file; all sequences of conversions in one process')
ASSUMPTIONS = ['layouts follow the samples of the repository and the strings the readers look for; other versions of the programs are not covered',
               'a cut that leaves all the data of the output may be accepted, with these data',
               'energies of phonopy runs are those of vasprun.xml, or zero when it is missing (documented)']

THZ = c12.THZ
SYMBOLS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba '
           'La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg '
           'Cn Nh Fl Mc Lv Ts Og').split()


def tensor(n):
    """21 different constants; n picks the magnitudes"""
    C = np.zeros((6, 6))
    for k, (i, j) in enumerate(itertools.combinations_with_replacement(range(6), 2)):
        C[i, j] = C[j, i] = (400. - 3.25 * k + 40 * (i == j)) if n == 0 else ((-1) ** k * (1.125 + k * .5) + (i == j) * 300.) if n == 1 else 1000.125 + 7 * k
    return C


def convert(args, answers=('My job',)):
    """outcome of one inpgen command: ('ok', parsed content) / ('refused', banner) / ('crash', why)"""
    if os.path.exists('gen.yaml'):
        os.remove('gen.yaml')
    if os.path.exists('gen.dat'):
        os.remove('gen.dat')
    try:
        with horizon(20):
            run = cli.quantas(['inpgen'] + list(args) + ['-o', 'gen'], answers)
    except Timeout:
        return ['hang', 'no answer in 20 s']
    if run.crashed:
        return ['hang' if isinstance(run.exc, Timeout) else 'crash', run.why()]
    done = [f for f in ('gen.yaml', 'gen.dat') if os.path.exists(f)]
    if run.error:
        return ['partial', 'error reported, but %r written' % done] if done else ['refused', run.output[-200:]]
    if not done:
        return ['nothing', run.output[-500:]]
    if done[0] == 'gen.yaml':
        g = c12.read('gen.yaml')
        if 'natom' not in g:
            return ['bad', 'the generated file is refused: %r' % (g,)]
        doc = yaml.safe_load(open('gen.yaml'))
        g['q'] = [p['q-position'] for p in doc['phonon']]
        g['supercell'] = doc['supercell']
        return ['ok', g]
    from checks.c11 import read
    with open('gen.dat') as f:
        g = read(f.read())
    if not g.get('completed'):
        return ['bad', 'the generated file is refused: %r' % (g,)]
    return ['ok', g]


# ---- menus of outputs: name -> (interface arguments, {file: text}, expected)
def phonon(itf, nat, nq, nv, kind='tri', mag=1.037123, wp='ramp', dim='diag', order=None, ref=0, tag='', groups=None, **more):
    """files, arguments and expected content of a list conversion"""
    V, E, F, W, Q, L = c12.system(nat, nq, nv, kind, mag, wp)
    d = c12.DIMS[dim] if isinstance(dim, str) else np.array(dim)
    n = int(round(abs(np.linalg.det(d))))
    files, names = {}, []
    if groups is not None:                 # degenerate modes, as many in each set
        a = 0
        for g in groups:
            F[:, a:a + g] = F[:, a:a + 1]
            a += g
    for i in range(nv):
        base = '%sout%d' % (tag, i)
        if itf == 'phonopy':
            E[i] = float('%.8f' % E[i])          # digits of the xml
            for s, t in outputs.phonopy(L[i], nat, E[i], d, list(zip(W, Q)), F[:, :, i] / THZ, **more).items():
                files[base + s] = t
            names.append(base + '.yaml')
        else:
            sh = [2, 4, 8]
            if isinstance(dim, str) and dim == 'id':
                files[base] = outputs.crystal_gamma(L[i], nat, E[i], F[0, :, i])
            else:
                files[base] = outputs.crystal_dispersion(L[i], nat, E[i] * n, d, [(w, [int(round(a * b)) for a, b in zip(q, sh)]) for w, q in zip(W, Q)],
                                                         F[:, :, i].tolist(), sh, hess=(wp == 'frac'), group=groups is not None)
            names.append(base)
    if isinstance(dim, str) and dim == 'id' and itf == 'crystal':
        W, F, Q = [1.], F[:1], [(0., 0., 0.)]
    order = list(range(nv)) if order is None else list(order)
    files[tag + 'list'] = '\n'.join(names[i] for i in order) + '\n'
    exp = {'natom': nat, 'supercell': d.tolist(), 'volume': [V[i] for i in order], 'energy': [E[i] for i in order], 'freq': F[:, :, order].tolist(),
           'weights': list(W), 'q': [list(q) for q in Q]}
    return ['ha', tag + 'list', '-l', '-i', itf, '-r', str(ref)], files, exp


def gamma_super(nat, dim, tag=''):
    """Gamma frequencies of a supercell (no SCELPHONO): the data of the supercell"""
    d = c12.DIMS[dim]
    n = int(round(abs(np.linalg.det(d))))
    V, E, F, W, Q, L = c12.system(nat * n, 1, 1, 'tri', 1., 'one')
    return ['ha', tag + 'g', '-i', 'crystal'], {tag + 'g': outputs.crystal_gamma(L[0], nat * n, E[0], F[0, :, 0], dim=d)}, \
        {'natom': nat * n, 'volume': V, 'energy': E, 'freq': F.tolist(), 'weights': [1.], 'q': [[0., 0., 0.]]}


def qha(nat, nv, dim, order=None, tag='', kind='tri'):
    V, E, F, W, Q, L = c12.system(nat, 1, nv, kind, 1., 'one')
    d = c12.DIMS[dim] if isinstance(dim, str) else np.array(dim)
    n = int(round(abs(np.linalg.det(d))))
    F = F.repeat(n, axis=0) + 3. * np.arange(n)[:, None, None]
    t = outputs.crystal_qha([np.dot(d, x) for x in L], nat * n, [e * n for e in E], F.reshape(-1, nv), dim=None if isinstance(dim, str) and dim == 'id' else d, order=order)
    return ['ha', tag + 'qha', '-i', 'crystal-qha'], {tag + 'qha': t}, \
        {'natom': nat, 'supercell': d.tolist(), 'volume': V, 'energy': E, 'freq': F.tolist(), 'weights': [1.] * n, 'q': [[0., 0., 0.]] * n}


def soec(prog, C, density=3.513, total=True, tag='', **more):
    t = outputs.crystal_soec(C, density, **more) if prog == 'crystal' else outputs.vasp(C, total)
    alt = (C + np.diag(np.arange(1., 7.))).tolist() if prog == 'vasp' and total else None
    return ['soec', tag + prog, '-i', prog], {tag + prog: t}, {'alt': alt, 'm': C.tolist(), 'density': density * 1000. if prog == 'crystal' else 0.}


def check(r, key, got, exp, where):
    r.steps += 1
    if got[0] != 'ok':
        r.fail('%s:%s' % (key, got[0]), '%s\n%s' % (got[1], where))
        return
    g = got[1]
    if 'm' in exp:
        if not close(g['m'], exp['m'], atol=6e-5):
            r.fail(key + ':tensor', 'stiffness %r, the output says %r\n%s' % (np.array(g['m']), np.array(exp['m']), where))
        if abs(g['density'] - exp['density']) > 0.051:
            r.fail(key + ':density', '%r, the output says %r\n%s' % (g['density'], exp['density'], where))
        return
    big = max(1., np.abs(exp['freq']).max())
    for k, rt, at in (('natom', 0, 0), ('supercell', 0, 0), ('volume', 2e-11, 6e-9), ('energy', 2e-12, 0), ('weights', 1e-9, 0), ('q', 0, 6e-8), ('freq', 0, 1e-8 * big)):
        if k in exp and not close(g[k], exp[k], rtol=rt + 1e-15, atol=at):
            r.fail('%s:%s' % (key, k), '%s %r, the output says %r\n%s' % (k, g[k], exp[k], where))


def put(files):
    for fn, t in files.items():
        with open(fn, 'w') as f:
            f.write(t)


def menu():
    """name -> (args, files, expected or None)"""
    M = {}
    M['phonopy'] = phonon('phonopy', 1, 2, 2, tag='a')
    M['phonopy2'] = phonon('phonopy', 2, 1, 1, wp='big', dim='id', tag='b')
    M['disp'] = phonon('crystal', 1, 2, 2, tag='c')
    M['gamma'] = phonon('crystal', 2, 1, 3, dim='id', tag='d')
    M['super'] = gamma_super(1, 'diag', 'e')
    M['qha'] = qha(1, 4, 'id', [2, 0, 3, 1], 'f')
    M['qhasup'] = qha(1, 5, 'swap', None, 'g')
    M['soec'] = soec('crystal', tensor(0), tag='h')
    M['vasp'] = soec('vasp', tensor(1), tag='i')
    M['vaspsym'] = soec('vasp', tensor(2), total=False, tag='j')
    for k, i in (('cut', 'c'), ('cutq', 'f')):
        src = M['disp'] if i == 'c' else M['qha']
        fn = [f for f in src[1] if f.endswith('out1') or f.endswith('qha')][0]
        files = {'x' + n: t if n != fn else t[:len(t) // 2] for n, t in src[1].items()}
        files = {n: re.sub(r'(?m)^(cout)', r'x\1', t) if n.endswith('list') else t for n, t in files.items()}
        args = [a if a not in src[1] else 'x' + a for a in src[0]]
        M[k] = (args, files, None)
    M['foreign'] = (['ha', 'foreign', '-i', 'crystal'], {'foreign': 'nothing to see\n'}, None)
    M['foreignv'] = (['soec', 'foreign', '-i', 'vasp'], {'foreign': 'nothing to see\n'}, None)
    return M


FOREIGN = {'empty': b'', 'blank': b'\n\n\n', 'text': b'hello\nworld\n', 'yaml': b'a: [1, 2]\nb: c\n', 'list': b'- 1\n- 2\n', 'scalar': b'12\n', 'binary': bytes(range(256)), 'nul': b'\0' * 64,
           'latin': 'caf\xe9\n'.encode('latin-1'), 'brokenyaml': b'a: [1,\nb: }\n', 'tab': b'a:\n\t- b\n'}


def cuttable():
    """name -> (args, files, expected, cut file)"""
    out = {}
    for k, m, fn in (('phonopy', phonon('phonopy', 1, 2, 1), 'out0.yaml'), ('phonopy_disp', phonon('phonopy', 1, 1, 1), 'out0_disp.yaml'), ('phonopy_xml', phonon('phonopy', 1, 1, 1), 'out0.xml'),
                     ('disp', phonon('crystal', 1, 2, 1), 'out0'), ('disphess', phonon('crystal', 1, 2, 1, wp='frac'), 'out0'), ('gamma', phonon('crystal', 2, 1, 1, dim='id'), 'out0'),
                     ('super', gamma_super(1, 'swap'), 'g'), ('qha', qha(1, 4, 'id'), 'qha'), ('qhasup', qha(1, 4, 'diag'), 'qha'),
                     ('soec', soec('crystal', tensor(0)), 'crystal'), ('vasp', soec('vasp', tensor(1)), 'vasp'), ('vaspsym', soec('vasp', tensor(1), total=False), 'vasp')):
        out[k] = m + (fn,)
    return out


def subset(got, exp, where, r, key, cutmode):
    """a damaged output: refused, or every datum that is its own"""
    r.steps += 1
    if got[0] == 'refused' or got[0] == 'bad' and cutmode.startswith('twice'):
        return
    if got[0] != 'ok':
        r.fail('%s:%s' % (key, got[0]), '%s\n%s' % (got[1], where))
        return
    if cutmode.startswith(('head', 'twice')) or re.search('SUPERCELL OPTION|GEOMETRY NOW|PRIMITIVE CELL|e_wo_entrp', cutmode):
        return                     # the missing head may hold optional data (title, density, expansion)
    alt = exp.get('alt')
    if alt is not None and close(got[1].get('m'), alt, atol=6e-5):
        return                     # what is left is a complete run without ionic relaxation
    check(r, key, got, exp, where)
    r.steps -= 1


#: atoms, q-points, volumes: one digit and more, one frequency table and many
SIZES = {False: [(1, 1, 17), (1, 2, 33), (1, 1, 99), (1, 1, 100), (1, 1, 101), (1, 1, 150), (1, 1, 9), (1, 2, 10), (1, 1, 11), (1, 3, 13), (3, 1, 12), (1, 9, 1), (1, 10, 2), (1, 11, 1), (1, 64, 1), (1, 100, 1), (2, 27, 4), (4, 8, 5), (10, 1, 4), (12, 2, 2), (34, 1, 1), (40, 3, 1)],
         True: [(a, q, v) for a in (1, 2, 4, 10, 33, 34, 40) for q in (1, 2, 8, 9, 10, 11, 27, 64, 99, 100, 101, 128) for v in (1, 4, 9, 10, 11, 13, 20) if a * q * v <= 900] + [(1, 1, v) for v in (17, 33, 99, 100, 101, 150, 257)]}


def compositions(n):
    return [[]] if n == 0 else [[g] + c for g in (1, 2, 3) if g <= n for c in compositions(n - g)]


def expansions():
    """supercells of every sign of the determinant, whose determinant is not exact in floating point"""
    out = [np.diag(x) for x in itertools.product((1, 2, 3), repeat=3)]
    out += [np.eye(3, dtype=int)[list(p)] * k for p in itertools.permutations(range(3)) for k in (1, 2)]
    out += [np.array(x) for x in ([[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 2]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[2, 1, 0], [-1, 1, 0], [0, 0, 1]],
                                 [[3, 1, 1], [1, 3, 1], [1, 1, 3]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[2, 0, 1], [0, 3, 0], [-1, 0, 2]], [[-2, 0, 0], [0, -1, 0], [0, 0, -3]],
                                 [[1, 2, 3], [0, 1, 4], [5, 6, 2]], [[3, -1, 2], [1, 3, -1], [-2, 1, 3]])]
    return out


def cases(tier):
    th = tier == 'thorough'
    for itf in ('phonopy', 'crystal'):
        for nv in (1, 2, 3, 4) if th else (1, 2, 3):
            yield ['orders', itf, nv]
    for nat in (1, 2, 4) if th else (1, 2):
        yield ['super', nat]
        for nv in (4, 5):
            for dim in ('id', 'diag', 'swap'):
                yield ['qhaorders', nat, nv, dim]
    for prog in ('crystal', 'vasp', 'vaspsym'):
        yield ['soec', prog]
        yield ['one', prog]
    for itf in ('phonopy', 'crystal', 'crystal-qha'):
        for nat, nq, nv in SIZES[th]:
            yield ['size', itf, nat, nq, nv]
    for itf in ('phonopy', 'crystal', 'gamma'):
        for nat in (1, 2):
            yield ['degenerate', itf, nat]
    for itf in ('phonopy', 'crystal', 'crystal-qha'):
        for k in range(3):
            yield ['dims', itf, k]
    for kind in ('cub', 'fcc', 'left', 'tri'):
        yield ['cells', kind]
    for a in range(0, 118, 20):
        yield ['elements', a]
    yield ['steps']
    yield ['densities']
    yield ['titles']
    yield ['mixed']
    yield ['noxml']
    for k in range(12):
        yield ['names', k]
    yield ['ref']
    for k, c in cuttable().items():
        n = len(c[1][c[3]].split('\n'))
        for a in range(0, n, 20):
            yield ['cut', k, a, min(a + 20, n), tier]
    for k in cuttable():
        yield ['foreign', k]
    for k in menu():
        yield ['seq', k, 3 if th else 2]


def run_case(case):
    r = Result()
    with scratch():
        kind = case[0]
        if kind == 'orders':
            for nat, nq in ((1, 1), (1, 2), (2, 3)):
                for dim in ('id', 'diag', 'swap'):
                    for order in itertools.permutations(range(case[2])):
                        for ref in range(case[2]):
                            if ref and order != tuple(range(case[2])):
                                continue
                            args, files, exp = phonon(case[1], nat, nq, case[2], dim=dim, order=order, ref=ref)
                            put(files)
                            check(r, 'orders:' + case[1], isolated(convert, args), exp, repr((nat, nq, dim, order, ref)))
                            r.see(case[1], nat, nq, dim, order, ref)
            # layout of the list: blank lines, no final newline, spaces, names repeated
            args, files, exp = phonon(case[1], 1, 2, case[2])
            for how in (lambda t: t.rstrip('\n'), lambda t: t.replace('\n', '  \n'), lambda t: '\n' + t + '\n\n', lambda t: t.replace('\n', '\r\n'), lambda t: t.replace('\n', '\n\n')):
                put(dict(files, list=how(files['list'])))
                check(r, 'list', isolated(convert, args), exp, repr(how(files['list'])))
                r.see('list', how(files['list']))
        elif kind == 'super':
            for dim in c12.DIMS:
                args, files, exp = gamma_super(case[1], dim)
                put(files)
                check(r, 'super', isolated(convert, args), exp, dim)
                r.see(case[1], dim)
        elif kind == 'qhaorders':
            perms = itertools.permutations(range(case[2]))
            if case[2] > 4:
                perms = [p for p in perms if sum(a != b for a, b in zip(p, range(5))) <= 2] + [(4, 3, 2, 1, 0), (1, 2, 3, 4, 0)]
            for order in perms:
                args, files, exp = qha(case[1], case[2], case[3], order, kind='left' if order[0] == 1 else 'tri')
                put(files)
                check(r, 'qha', isolated(convert, args), exp, repr(order))
                r.see(case[1:], order)
        elif kind == 'soec':
            prog = case[1].replace('sym', '')
            for n in range(3):
                for dens in (3.513, 0.5, 19.3, 0.0):
                    args, files, exp = soec(prog, tensor(n), dens, case[1] == 'vasp')
                    put(files)
                    check(r, case[1], isolated(convert, args), exp, repr((n, dens)))
                    r.see(case[1], n, dens)
        elif kind == 'one':
            prog = case[1].replace('sym', '')
            base = np.diag([300., 310., 320., 100., 110., 120.]) + 10.
            for i, j in itertools.combinations_with_replacement(range(6), 2):
                for v in (0., -7.25, 123.4, 999.999, 0.001):
                    C = base.copy()
                    C[i, j] = C[j, i] = v
                    args, files, exp = soec(prog, C, 3.5, case[1] == 'vasp')
                    put(files)
                    check(r, 'one:' + case[1], isolated(convert, args), exp, 'C%d%d = %r' % (i + 1, j + 1, v))
                    r.see(case[1], i, j, v)
        elif kind == 'size':
            _, itf, nat, nq, nv = case
            if itf == 'crystal-qha':
                if nv < 4:
                    return r
                m = qha(nat, nv, 'diag' if nq > 1 else 'id', [(3 * i + 1) % nv for i in range(nv)] if nv % 3 else None)
            else:
                m = phonon(itf, nat, nq, nv, order=list(range(nv))[::-1])
            put(m[1])
            check(r, 'size:' + itf, isolated(convert, m[0]), m[2], repr(case))
            r.see(case)
        elif kind == 'degenerate':
            _, itf, nat = case
            for groups in compositions(3 * nat):
                m = phonon('crystal' if itf == 'gamma' else itf, nat, 2, 2, groups=groups, dim='id' if itf == 'gamma' else 'diag')
                put(m[1])
                check(r, 'degenerate:' + itf, isolated(convert, m[0]), m[2], repr(groups))
                r.see(itf, groups)
        elif kind == 'dims':
            _, itf, k = case
            for d in expansions()[k::3]:
                for kind2 in ('tri', 'left'):
                    m = qha(1, 4, d, None, kind=kind2) if itf == 'crystal-qha' else phonon(itf, 1, 2, 1, kind=kind2, dim=d)
                    put(m[1])
                    check(r, 'dims:' + itf, isolated(convert, m[0]), m[2], '%r %s' % (d.tolist(), kind2))
                    r.see(itf, d, kind2)
        elif kind == 'cells':
            for m in [phonon(i, a, 2, 2, kind=case[1], dim=d) for i in ('phonopy', 'crystal') for a in (1, 2) for d in ('id', 'diag', 'fcc')] + \
                    [qha(a, 4, d, None, kind=case[1]) for a in (1, 2) for d in ('id', 'diag', 'fcc')]:
                put(m[1])
                check(r, 'cells', isolated(convert, m[0]), m[2], '%s %r' % (case[1], m[0]))
                r.see(case[1], m[0], m[2]['supercell'], m[2]['natom'])
        elif kind == 'elements':
            for i in range(case[1], min(case[1] + 20, 118)):
                m = phonon('phonopy', 2, 1, 1, symbols=(SYMBOLS[i], SYMBOLS[117 - i]))
                put(m[1])
                check(r, 'elements', isolated(convert, m[0]), m[2], SYMBOLS[i])
                r.see(SYMBOLS[i])
        elif kind == 'steps':
            # the energy of a run of several ionic steps is that of the last one
            for n in (1, 2, 3, 12):
                m = phonon('phonopy', 1, 1, 2, steps=n)
                put(m[1])
                check(r, 'steps', isolated(convert, m[0]), m[2], '%d steps' % n)
                r.see(n)
        elif kind == 'densities':
            # the density is that of the input geometry once consistent with the group
            for before in (None, 1.5, 3.6):
                for after in ((), (3.4,), (3.4, 3.6)):
                    for dens in (3.513, 19.3):
                        m = soec('crystal', tensor(0), dens, before=before, after=after)
                        put(m[1])
                        check(r, 'densities', isolated(convert, m[0]), m[2], repr((before, after, dens)))
                        r.see(before, after, dens)
        elif kind == 'titles':
            for prog in ('crystal', 'vasp'):
                args, files, exp = soec(prog, tensor(0))
                put(files)
                for title in ('My job', '2020', '12 GPa', '1 2 3 4 5 6', '-1.5e3', 'a # b', 'x' * 100, '3C-SiC', 'nan', 'inf 2', '.', '# 5', '\u00e9'):
                    got = isolated(convert, args, (title,))
                    check(r, 'title:' + prog, got, exp, repr(title))
                    if got[0] == 'ok' and title not in got[1]['job']:
                        r.fail('title:name', 'job %r typed as %r' % (got[1]['job'], title))
                    r.see(prog, title)
                for title in ('', '   ', '\t'):
                    check(r, 'title:' + prog, isolated(convert, args, (title,)), exp, repr(title))
        elif kind == 'mixed':
            # outputs that can not belong to the same solid are not put together
            base = phonon('crystal', 2, 1, 1, dim='id', tag='a')
            for itf in ('crystal', 'phonopy'):
                kinds = {'nat': phonon(itf, 1, 2, 1, tag='b'), 'nq': phonon(itf, 2, 3, 1, tag='c'), 'ref': phonon(itf, 2, 2, 1, tag='d'), 'dim': phonon(itf, 2, 2, 1, dim='swap', tag='e')}
                for a, b in itertools.permutations(kinds, 2):
                    if 'ref' not in (a, b):
                        continue
                    put(kinds[a][1])
                    put(kinds[b][1])
                    open('mix', 'w').write(kinds[a][1][[f for f in kinds[a][1] if f.endswith('list')][0]] + kinds[b][1][[f for f in kinds[b][1] if f.endswith('list')][0]])
                    got = isolated(convert, ['ha', 'mix', '-l', '-i', itf])
                    r.steps += 1
                    r.see(itf, a, b)
                    if got[0] != 'refused':
                        r.fail('mixed:%s:%s' % (a, b), 'outputs of different systems were put together: %r' % (got,))
            put(base[1])
            for name, text in (('missing', 'aout0\nnone\n'), ('dir', 'aout0\nd\n'), ('empty', ''), ('blank', '\n\n')):
                os.makedirs('d', exist_ok=True)
                open('mix', 'w').write(text)
                got = isolated(convert, ['ha', 'mix', '-l', '-i', 'crystal'])
                r.steps += 1
                r.see(name)
                if got[0] != 'refused':
                    r.fail('list:' + name, '%r' % (got,))
        elif kind == 'names':
            # where the outputs are and what they are called; several extensions, several folders
            bases = ['run', 'run.1', 'run.2.b', 'my.yaml.out', 'sub/run', 'sub.d/run', './run', '../%s/run' % os.path.basename(os.getcwd()), os.getcwd() + '/run', 'sub.d/r.1', 'a-b_c', 'RUN', '1', 'disp',
                     'x.xml', 'x_disp', 'a b', 'sub d/a b', '\u00e9']
            for itf in ('phonopy', 'crystal'):
                for b0, b1 in ([(b, b) for b in bases] + [('run', 'run.1'), ('run.1', 'run'), ('sub/run', 'run'), ('run', 'sub.d/run'), ('sub/run', 'sub.d/run')])[case[1]::12]:
                    args, files, exp = phonon(itf, 1, 2, 2)
                    same = b0 == b1
                    new = {0: b0 + ('-0' if same else ''), 1: b1 + ('-1' if same else '')}
                    for d in ('sub', 'sub.d', 'sub d'):
                        os.makedirs(d, exist_ok=True)
                    for fn, text in files.items():
                        if fn == 'list':
                            text = text.replace('out0', new[0]).replace('out1', new[1])
                        with open(fn if fn == 'list' else new[int(fn[3])] + fn[4:], 'w') as f:
                            f.write(text)
                    check(r, 'names:' + itf, isolated(convert, args), exp, repr((b0, b1)))
                    one, _, exp1 = phonon(itf, 1, 2, 1)
                    check(r, 'names:' + itf, isolated(convert, ['ha', new[0] + ('.yaml' if itf == 'phonopy' else ''), '-i', itf]), exp1, repr(b0))
                    r.see(itf, b0, b1)
        elif kind == 'noxml':
            args, files, exp = phonon('phonopy', 1, 2, 3)
            for keep in itertools.product((0, 1), repeat=3):
                f = {k: v for k, v in files.items() if not k.endswith('.xml') or keep[int(k[3])]}
                for k in os.listdir('.'):
                    os.remove(k)
                put(f)
                e = dict(exp, energy=[x if k else 0. for x, k in zip(exp['energy'], keep)])
                check(r, 'noxml', isolated(convert, args), e, repr(keep))
                r.see(keep)
        elif kind == 'ref':
            for itf in ('phonopy', 'crystal'):
                for nv in (1, 2, 3):
                    args, files, exp = phonon(itf, 1, 2, nv)
                    put(files)
                    for ref in (-2, -1, nv, nv + 1, 99):
                        got = isolated(convert, args[:-1] + [str(ref)])
                        r.steps += 1
                        r.see(itf, nv, ref)
                        if got[0] != 'refused':
                            r.fail('ref', 'reference %d of %d outputs: %r' % (ref, nv, got[0]))
        elif kind == 'cut':
            _, name, a, b, tier = case
            args, files, exp, fn = cuttable()[name]
            lines = files[fn].split('\n')
            put(files)
            last = len(lines) - 1

            def tryone(t, what):
                with open(fn, 'w') as f:
                    f.write(t)
                got = isolated(convert, args)
                subset(got, exp, '%s of %s\n...\n%s' % (what, fn, t[-300:]), r, '%s:%s' % (what.split()[0], name), what)
                r.see(name, what, got[0])
            for i in range(a, b):
                tryone('\n'.join(lines[:i]), 'cut before line %d' % i)
                # within a line, between two words: numbers stay whole
                for m in list(re.finditer(r'\s(?=\S)', lines[i]))[::1 if tier == 'thorough' else 3]:
                    tryone('\n'.join(lines[:i] + [lines[i][:m.start()]]), 'split line %d at %d' % (i, m.start()))
                tryone('\n'.join(lines[:i] + lines[i + 1:]), 'lost line %d: %s' % (i, lines[i]))
                tryone('\n'.join(lines[:i + 1] + lines[i:]), 'twice line %d: %s' % (i, lines[i]))
                tryone('\n'.join(lines[i:]), 'head lost up to line %d' % i)
        elif kind == 'foreign':
            args, files, exp, fn = cuttable()[case[1]]
            put(files)
            for n, data in FOREIGN.items():
                if case[1] == 'phonopy_xml' and n == 'none':
                    continue
                with open(fn, 'wb') as f:
                    f.write(data)
                got = isolated(convert, args)
                r.steps += 1
                r.see(case[1], n, got[0])
                if got[0] != 'refused':
                    r.fail('foreign:%s' % case[1], '%s file %r: %r' % (n, fn, got))
            os.remove(fn)
            os.makedirs(fn)
            got = isolated(convert, args)
            if got[0] != 'refused' and case[1] != 'phonopy_xml':
                r.fail('foreign:%s' % case[1], 'a folder is given as %r: %r' % (fn, got))
        else:
            M = menu()
            for m in M.values():
                put(m[1])
            fresh = {k: isolated(convert, m[0]) for k, m in M.items()}
            for k, m in M.items():
                if m[2] is None:
                    if fresh[k][0] != 'refused':
                        r.fail('fresh:' + k, '%r' % (fresh[k],))
                elif k == case[1]:
                    check(r, 'fresh:' + k, fresh[k], m[2], k)
            for n in range(1, case[2]):
                for tail in itertools.product(M, repeat=n):
                    seq = (case[1],) + tail
                    outs = isolated(lambda: [convert(M[k][0]) for k in seq])
                    r.steps += len(seq)
                    r.see(seq)
                    for i, k in enumerate(seq):
                        if outs[i] != fresh[k]:
                            r.fail('history', 'after %r, %r gives %r; alone %r' % (seq[:i], k, outs[i], fresh[k]))
                            return r
    return r
