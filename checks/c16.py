"""C16 crystal class and mechanical stability: every class form (projected on the
point group, so independent of any table) and both sides of each stability limit."""
import itertools

import numpy as np

from mc import cli, elast as el
from mc.core import Result, scratch
from mc import soecrun
from checks import c11
from checks.c15 import tensor, isotropic

PROPERTY = 'C16'
RULE = ('every Laue class x tensors (generic, with one modulus set to zero or changed of sign; every sign pattern of the moduli that break a higher class; slight distortions of each higher class) x noise patterns below the rounding of an '
        'input file; each eigenspace of each tensor pushed to both sides of zero, through the CLI')
ASSUMPTIONS = ['standard settings (monoclinic unique axis b)', 'numerical noise at most 2e-4 GPa; differences between classes at least 0.02 GPa']

SUPER = {   # groups strictly containing each Laue class, in the standard settings
    'cubic': [], 'hexagonal': [], 'trigonal_high': ['hexagonal', 'cubic'], 'trigonal_low': ['trigonal_high', 'hexagonal', 'cubic'],
    'tetragonal_high': ['cubic', 'hexagonal'], 'tetragonal_low': ['tetragonal_high', 'cubic', 'hexagonal'],
    'orthorhombic': ['tetragonal_high', 'hexagonal', 'cubic'], 'monoclinic': ['orthorhombic'],
    'triclinic': ['monoclinic', 'trigonal_high', 'trigonal_low', 'tetragonal_low', 'hexagonal', 'cubic', 'tetragonal_high', 'orthorhombic'],
}
ORDER = ['cubic', 'hexagonal', 'trigonal_high', 'trigonal_low', 'tetragonal_high', 'tetragonal_low', 'orthorhombic', 'monoclinic', 'triclinic']


def classify(C):
    """highest Laue class whose operations leave the tensor unchanged"""
    for name in ORDER:
        if np.abs(el.symmetrise(C, name) - C).max() < 1e-6:
            return name


def cases(tier):
    n = 12 if tier == 'thorough' else 4
    for name in el.GEN:
        for seed in range(1 if tier != 'thorough' else 4):
            yield ['stability', name, seed, tier]
    for name in el.GEN:
        for seed in range(n):
            yield ['class', name, seed]
        yield ['cli', name, ('complete', 'upper', 'lower') if tier == 'thorough' else ('upper',)]
    for name in SUPER:
        for sup in SUPER[name]:
            yield ['near', name, sup]
    yield ['rotated']
    for name in ('trigonal_high', 'trigonal_low', 'tetragonal_low', 'monoclinic'):
        yield ['signs', name, 0]
    for k in range(8):
        yield ['signs', 'triclinic', k]


def independent(name):
    """a basis of the class, by projecting each of the 21 moduli"""
    B = []
    for i, j in itertools.combinations_with_replacement(range(6), 2):
        m = np.zeros((6, 6))
        m[i, j] = m[j, i] = 1.
        p = el.symmetrise(m, name)
        p[np.abs(p) < 1e-12] = 0.
        if np.abs(p).max() > 0 and not any(np.linalg.matrix_rank(np.array([b.ravel() for b in B + [p]])) == len(B) for _ in [0]):
            B.append(p)
    return B


def noise(k):
    i = np.arange(36).reshape(6, 6)
    m = 2e-4 * np.sign(np.sin(1.3 * (k + 1) * (i + 1)))
    return (np.triu(m) + np.triu(m, 1).T)


def run_case(case):
    from quantas.soec.utils.symmetry import check_symmetry
    r = Result()
    if case[0] == 'class':
        _, name, seed = case
        C0 = el.symmetrise(el.generic(seed), name)
        alts = [C0]
        for b in independent(name):
            k = np.unravel_index(np.argmax(np.abs(b)), (6, 6))
            for f in (0., -1., 1.02, 1.5):
                alts.append(C0 + (f - 1.) * C0[k] / b[k] * b)
                alts.append(C0 + (.05 if f else -.05) / b[k] * b)
        for C in alts:
            C = np.round((C + C.T) / 2., 10)
            C[np.abs(C) < 1e-9] = 0.
            want = classify(C)
            near = any(1e-6 <= np.abs(el.symmetrise(C, s) - C).max() < 0.009 for s in ORDER)
            if near:
                continue
            got = check_symmetry(C.copy())
            r.steps += 1
            r.see(name, seed, want, digest_form(C))
            if got != want:
                r.fail('class:' + want, 'a %s tensor is reported as %s\n%s' % (want, got, np.round(C, 3)))
            for k in range(6):
                got = check_symmetry(C + noise(k))
                r.steps += 1
                if got != want:
                    r.fail('noise:' + want, 'a %s tensor with noise of 2e-4 is reported as %s\n%s' % (want, got, np.round(C + noise(k), 4)))
    elif case[0] == 'near':
        # slightly distorted from a more symmetric class, by each modulus in turn
        _, name, sup = case
        for seed in range(3):
            base = el.symmetrise(el.generic(seed), sup)
            for b in independent(name):
                for d in (-3., -.3, -.05, -.02, .02, .05, .3, 3.):
                    C = base + d / np.abs(b).max() * b
                    C = np.round((C + C.T) / 2., 10)
                    C[np.abs(C) < 1e-9] = 0.
                    want = classify(C)
                    if any(1e-6 <= np.abs(el.symmetrise(C, s) - C).max() < 0.009 for s in ORDER):
                        continue
                    got = check_symmetry(C.copy())
                    r.steps += 1
                    r.see(name, sup, want, d)
                    if got != want:
                        r.fail('near:' + want, 'a %s tensor, near to %s, is reported as %s\n%s' % (want, sup, got, np.round(C, 3)))
    elif case[0] == 'signs':
        # the moduli that tell a class from the more symmetric ones, with every
        # combination of signs (and absences)
        _, name, block = case
        base = el.symmetrise(el.generic(5), 'orthorhombic' if name in ('monoclinic', 'triclinic') else name.split('_')[0] + '_high')
        if name.startswith('trigonal'):
            base = el.symmetrise(base, 'hexagonal')
        extra = []
        for b in independent(name):
            k = np.unravel_index(np.argmax(np.abs(b)), (6, 6))
            if abs(base[k]) < 1e-9:
                extra.append(b / np.abs(b[k]))
        n = len(extra)
        if n < 8:
            pats = list(itertools.product((-1, 0, 1), repeat=n))
        else:
            pats = [q for q in itertools.product((-1, 1), repeat=n)]
            for a, b in itertools.combinations(range(n), 2):
                for x, y in itertools.product((-1, 0, 1), repeat=2):
                    q = [0] * n
                    q[a], q[b] = x, y
                    pats.append(tuple(q))
            pats = pats[block::8]
        for q in pats:
            C = base + sum((x * (3. + .7 * i) * b for i, (x, b) in enumerate(zip(q, extra))), np.zeros((6, 6)))
            C = np.round((C + C.T) / 2., 10)
            want = classify(C)
            got = check_symmetry(C.copy())
            r.steps += 1
            r.see(name, q)
            if got != want:
                r.fail('signs:' + want, 'a %s tensor is reported as %s\n%s' % (want, got, np.round(C, 3)))
    elif case[0] == 'stability':
        _, name, seed, tier = case
        C = tensor(name, 'N', seed)
        w6 = np.array([1, 1, 1, np.sqrt(2), np.sqrt(2), np.sqrt(2)])
        M = C * w6[:, None] * w6[None, :]
        w, v = np.linalg.eigh(M)
        spaces = []
        for x in w:
            if not spaces or abs(x - spaces[-1]) > 1e-6 * x:
                spaces.append(x)
        for x in spaces:
            for eps in ((-300., -50., -1e-2, 1e-2) if tier != 'thorough' else (-200., -50., -1., -1e-2, -1e-3, 1e-3, 1e-2, 2., 20.)):
                w2 = np.where(np.abs(w - x) < 1e-6 * x, eps, w)
                C2 = (v.dot(np.diag(w2)).dot(v.T)) / w6[:, None] / w6[None, :]
                with scratch():
                    run, C3 = soecrun.analyse((C2 + C2.T) / 2., 3000. if seed % 2 and eps > 1 else None, ['-q'] if eps < -100 else [], fmt='%.9f')
                    files = cli.listing()
                    saved = [f for f in files if f.endswith('.hdf5')]
                    log = '\n'.join(files[f].decode() for f in files if f.endswith('.txt'))
                r.steps += 1
                ok = np.linalg.eigvalsh(C3).min() > 0
                r.see(name, seed, spaces.index(x), eps)
                if run.crashed:
                    r.fail('stability:crash', '%r: %s' % (case, run.why()))
                elif ok:
                    if run.error or 'unstable' in run.output or len(saved) != 1:
                        r.fail('stable:' + name, 'a positive definite tensor (eigenvalues %r) is refused: %s' % (np.linalg.eigvalsh(C3), run.output[-400:]))
                else:
                    if not run.error or 'unstable' not in run.output + log:
                        r.fail('unstable:' + name, 'a tensor with eigenvalues %r is not reported as unstable: %s' % (np.linalg.eigvalsh(C3), run.output[-900:]))
                    if saved:
                        r.fail('unstable:saved', 'results saved for an unstable crystal')
                    if "Young's modulus          |" in run.output:
                        r.fail('unstable:moduli', 'variations of the moduli reported for an unstable crystal')
        # exactly singular
        C2 = C.copy()
        C2[5, :] = C2[:, 5] = 0.
        for m in (C2, np.zeros((6, 6))):
            with scratch():
                run, _ = soecrun.analyse(m, None)
                saved = [f for f in cli.listing() if f.endswith('.hdf5')]
            r.steps += 1
            if run.crashed or not run.error or saved:
                r.fail('singular', 'a singular tensor is not refused: %s %s' % (run.output[-300:], run.why()))
    elif case[0] == 'cli':
        name = case[1]
        for kind, seed in (('N', 0), ('A', 1)):
            C = tensor(name, kind, seed)
            for form in case[2]:
                with scratch():
                    run, C3 = soecrun.analyse(C, 3000., fmt='%.4f', form=form)
                r.steps += 1
                got = soecrun.parse(run.output)['system']
                r.see(name, kind, form)
                if got != name:
                    r.fail('cli:' + name, 'reported as %r\n%s' % (got, np.round(C, 4)))
    else:
        # rotations that keep the class keep the name; a general one makes it triclinic
        for name in el.GEN:
            C = el.symmetrise(el.generic(2), name)
            for g in el.group(name):
                m = el.voigt(el.rotate(el.full(C), g))
                r.steps += 1
                if check_symmetry(m) != name:
                    r.fail('rotated', 'a symmetry operation turns %s into %s' % (name, check_symmetry(m)))
            m = el.voigt(el.rotate(el.full(C), el.rotation([1, 2, 3], .77)))
            r.steps += 1
            r.see(name)
            if check_symmetry(m) != 'triclinic':
                r.fail('rotated', 'a generally oriented %s tensor is reported as %s' % (name, check_symmetry(m)))
        C = isotropic(100., 60.)
        if check_symmetry(C) != 'cubic':
            r.fail('isotropic', 'isotropic tensor reported as ' + check_symmetry(C))
    return r


def digest_form(C):
    return tuple((np.abs(C) > 1e-9).astype(int).ravel()) + tuple(np.sign(np.round(C, 6)).astype(int).ravel())
