"""C15 reported elastic extremes against an exhaustive direction lattice (with the
extremes over the transverse direction in closed form), through the CLI."""
import numpy as np

from mc import elast as el
from mc.core import Result, scratch
from mc import soecrun

PROPERTY = 'C15'
RULE = ('every crystal class x tensor alphabet (mild, strongly anisotropic, auxetic, soft, stiff) x density present or not, analysed by the CLI; the '
        'axially soft or stiff tensors turned to a lattice of directions; the reported extremes are compared with every direction of a 2 degree lattice (1 degree thorough) of the half sphere')
ASSUMPTIONS = ['tensors of the alphabet', 'relative tolerance 2e-4 on an extreme (lattice pitch, 4 printed decimals)']


def tensor(name, kind, seed):
    if name == 'turned':
        th, ph = np.radians(seed)
        if kind in ('soft', 'stiff'):
            A = isotropic(100., 50.) + np.diag([0, 0, -60. if kind == 'soft' else 200., -15., -10., 6.])
        else:                    # competing extremes along (wells) or between (ridges) the axes
            A = np.diag([60., 70., 90., 80., 85., 95.] if kind == 'wells' else [300., 260., 230., 24., 20., 17.])
            A[:3, :3] += 12.
        R = el.rotation([0, 0, 1], ph).dot(el.rotation([0, 1, 0], th))
        return el.voigt(el.rotate(el.full(A), R))
    C = el.symmetrise(el.generic(seed), name)
    if kind == 'X':              # auxetic: negative Poisson's ratio along most directions
        return isotropic(25., 60.) + el.symmetrise(.1 * el.generic(seed), name)
    if kind in 'SB':             # soft as a polymer, or stiffer than diamond
        return C * {'S': .01, 'B': 12.}[kind]
    if kind == 'A':
        w, v = np.linalg.eigh(C)
        C = el.symmetrise(v.dot(np.diag(w * np.array([.1, .3, .5, 1, 2, 3]))).dot(v.T), name)
    elif kind == 'L':            # layered: one soft axis, negative compressibility along another
        A = np.diag([180., 170., 30., 8., 12., 60.])
        A[0, 1] = A[1, 0] = 60.
        A[0, 2] = A[2, 0] = 38.
        A[1, 2] = A[2, 1] = 6.
        C = el.symmetrise(A + 0.02 * el.generic(seed), name)
    return C


def isotropic(K, G):
    C = np.zeros((6, 6))
    C[:3, :3] = K - 2. * G / 3.
    C[[0, 1, 2], [0, 1, 2]] += 2. * G
    C[[3, 4, 5], [3, 4, 5]] = G
    return C


def cases(tier):
    n = 14 if tier == 'thorough' else 3
    for name in el.GEN:
        for kind in 'NAL':
            for seed in range(n if kind != 'L' else max(1, n // 3)):
                yield [name, kind, seed, None if (seed + len(name)) % 3 == 0 and kind != 'A' else 1000. + 350. * seed, tier]
        for kind in 'XSB':
            yield [name, kind, 1, 400. if kind == 'S' else None if len(name) % 2 else 9000., tier]
    # one extreme direction (soft, or stiff) anywhere in the half sphere
    for th in ((90, 55, 20) if tier != 'thorough' else (90, 75, 60, 45, 30, 15)):
        for ph in ((15, 65, 110, 155) if tier != 'thorough' else range(5, 180, 15)):
            for kind in ('soft', 'stiff', 'wells', 'ridges'):
                yield ['turned', kind, [th, ph], None if (th + ph) % 2 else 2500., tier]
    for kind in ('wells', 'ridges'):
        for th in (0, 90):
            for ph in (45, 135):
                yield ['turned', kind, [th, ph], 2500., tier]
    yield ['isotropic', 'I', 0, 3000., tier]
    yield ['isotropic', 'I', 1, 2000., tier]


ATOL = {'nu': 2e-4}


def run_case(case):
    r = Result()
    name, kind, seed, rho, tier = case
    C = isotropic(100. + 50 * seed, 60. - 20. * seed) if kind == 'I' else tensor(name, kind, seed)
    if not el.stable(C):
        return r
    with scratch():
        run, C = soecrun.analyse(C, rho)
    r.steps += 1
    if run.crashed or run.error:
        r.fail('run', '%r: %s %s' % (case, run.output[-400:], run.why()))
        return r
    got = soecrun.parse(run.output)
    D, t, p = el.sphere(1. if tier == 'thorough' else 2.)
    F = el.fields(C, rho, D, t, p)
    S = el.compliance4(C)
    want = {'E': ('E', 'E'), 'LC': ('LC', 'LC'), 'G': ('Gmin', 'Gmax'), 'nu': ('numin', 'numax')}
    if rho:
        want.update({'vs1': ('vs1', 'vs1'), 'vs2': ('vs2', 'vs2'), 'vp': ('vp', 'vp')})
    elif any(q in got for q in ('vs1', 'vs2', 'vp')):
        r.fail('nodensity', 'seismic velocities reported without a density')
    for q, (lo, hi) in want.items():
        if q not in got or len(got[q]['axes']) != (6 if q in ('G', 'nu') else 3):
            r.fail('missing:' + q, '%r: %s not reported: %r' % (case, q, got.get(q)))
            continue
        g = got[q]
        lat = F[lo].min(), F[hi].max()
        tol = 6e-5 + ATOL.get(q, 0.) + 2e-4 * np.abs(np.array(lat))
        r.see(name, kind, seed, q)
        if g['min'] > lat[0] + tol[0]:
            r.fail('min:' + q, '%r: reported minimum %s = %r, but %r is attained' % (case, q, g['min'], lat[0]))
        if g['max'] < lat[1] - tol[1]:
            r.fail('max:' + q, '%r: reported maximum %s = %r, but %r is attained' % (case, q, g['max'], lat[1]))
        # attained along the reported axes
        ax = np.array(g['axes'])
        for k, ext in enumerate(('min', 'max')):
            n = ax[:3, k]
            if abs(np.linalg.norm(n) - 1.) > 3e-4:
                r.fail('axis:' + q, '%r: axis %r of the %s is no direction' % (case, n, ext))
                continue
            n = n / np.linalg.norm(n)
            if q in ('G', 'nu'):
                m = ax[3:6, k]
                if abs(np.linalg.norm(m) - 1.) > 3e-4 or abs(m.dot(n)) > 3e-4:
                    r.fail('axis2:' + q, '%r: second axis %r of the %s is not normal to the first %r' % (case, m, ext, n))
                    continue
                m = m - m.dot(n) * n
                m = m / np.linalg.norm(m)
                v = el.shear(S, n, m) if q == 'G' else el.poisson(S, n, m)
            elif q == 'E':
                v = el.young(S, n)
            elif q == 'LC':
                v = 1000. * el.lincomp(S, n)
            else:
                v = el.speeds(C, rho, n)[{'vs1': 0, 'vs2': 1, 'vp': 2}[q]]
            if abs(v - g[ext]) > 6e-5 + ATOL.get(q, 0.) + 4e-4 * abs(v):
                r.fail('attained:' + q, '%r: along the reported axes %s is %r, the reported %s is %r' % (case, q, v, ext, g[ext]))
        lo_, hi_ = g['min'], g['max']
        a = g['anisotropy']
        if lo_ <= -6e-5:
            if a != np.inf:
                r.fail('ratio:' + q, '%r: anisotropy %r for extremes %r, %r' % (case, a, lo_, hi_))
        elif lo_ > 6e-5:
            if not (hi_ - 6e-5) / (lo_ + 6e-5) - 6e-5 <= a <= (hi_ + 6e-5) / (lo_ - 6e-5) + 6e-5:
                r.fail('ratio:' + q, '%r: anisotropy %r for extremes %r, %r' % (case, a, lo_, hi_))
        if kind == 'I' and hi_ - lo_ > 2e-4 * abs(hi_):
            r.fail('isotropic:' + q, '%r: %s varies for an isotropic solid: %r %r' % (case, q, lo_, hi_))
    return r
