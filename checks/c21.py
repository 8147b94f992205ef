"""C21 the Christoffel object against an independent solution: eigen-problem built
from the rotated-tensor reference, group velocity and ray directions from the
analytic gradient of the eigenvalues, enhancement from differences of the ray
directions on the sphere."""
import itertools
import math
import os
import sys
import types

import numpy as np

from checks.c15 import isotropic, tensor
from mc import cli
from mc import elast as el
from mc.core import Result, quiet, scratch

PROPERTY = 'C21'
RULE = ('crystal class x tensor alphabet x density x direction lattice, given by angles and by vectors of any length; all symmetry operations of the class; histories: every order of the '
        'properties, every pair of directions on one object; the surface calculator on grids; non-trivial: direction with three separated velocities')
ASSUMPTIONS = ['group velocities and enhancement where the velocities differ by more than 2 percent and the enhancement is moderate (0.02 to 50)', 'power flow angles to 3e-5 rad']

CLASSES = list(el.GEN) + ['isotropic']
TENSORS = [('N', 0, 3300.), ('A', 1, 2650.), ('L', 2, 7100.)]


def make(name, kind, seed):
    C = isotropic(100. + 50 * seed, 60. - 20. * seed) if name == 'isotropic' else tensor(name, kind, seed)
    return C if el.stable(C) else None


def eig(c4, rho, q):
    """speeds [km/s], polarisations (rows), matrix"""
    M = np.einsum('ijkl,j,k->il', c4, q, q) * 1000. / rho
    w, v = np.linalg.eigh(M)
    return np.sqrt(w), v.T, M


def group(c4, rho, q, v, u):
    """dw/dk = C_ijkl u_i u_l n_j / (rho v)"""
    return np.array([np.einsum('ijkl,i,l,j->k', c4, u[n], u[n], q) * 1000. / rho / v[n] for n in range(3)])


def rays(c4, rho, q):
    v, u, M = eig(c4, rho, q)
    g = group(c4, rho, q, v, u)
    return g / np.linalg.norm(g, axis=1)[:, None]


def enhancement(c4, rho, q):
    """solid angle of wave vectors over that of rays, by central differences"""
    a = np.array([1., 0., 0.]) if abs(q[0]) < .7 else np.array([0., 1., 0.])
    t1 = np.cross(q, a)
    t1 /= np.linalg.norm(t1)
    t2 = np.cross(q, t1)
    h = 2e-4
    d = []
    for t in (t1, t2):
        f = lambda k: rays(c4, rho, q * math.cos(k * h) + t * math.sin(k * h))
        d.append((f(-2) - 8 * f(-1) + 8 * f(1) - f(2)) / (12 * h))
    return 1. / np.linalg.norm(np.cross(d[0], d[1]), axis=1)


def separated(v):
    return v[1] > 1.02 * v[0] and v[2] > 1.02 * v[1]


def near(a, b, rt, at=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= at + rt * np.abs(b)))


def polar(d):
    return math.acos(max(-1., min(1., d[2]))), math.atan2(d[1], d[0])


def angles_of(theta, phi, d):
    """theta, phi describe the direction d"""
    return near(el.direction(theta, phi), d, 0., 1e-9)


PROPS = ['phase_velocity', 'eigenval', 'eigenvec', 'group_velocity', 'group_abs', 'group_dir', 'group_theta', 'group_phi', 'powerflow_angle', 'enhancement', 'rel_phase_velocity',
         'rel_group_velocity', 'grad_eigenval', 'christoffel', 'q']


def get(s, n):
    return np.array(getattr(s, n), dtype=float)


def one(r, key, s, C, c4, rho, q, hard=True):
    """the object is set on q"""
    v, u, M = eig(c4, rho, q)
    K, G = (el.averages(C)[2][i] for i in (0, 2))
    iso = np.sqrt(1000. / rho * np.array([G, G, K + 4. * G / 3.]))
    r.steps += 1
    bad = lambda what, got, want: r.fail('%s:%s' % (key, what), 'direction %r, density %r, moduli %r: %s %r, expected %r' % (q.tolist(), rho, C.tolist(), what, got, want))
    if not near(get(s, 'q'), q, 0., 1e-12):
        bad('direction', s.q, q)
    if not angles_of(float(s.theta), float(s.phi), q):
        bad('angles', (s.theta, s.phi), polar(q))
    if not near(get(s, 'christoffel'), M, 1e-10, 1e-10 * v[2] ** 2):
        bad('matrix', s.christoffel, M)
    p = get(s, 'phase_velocity')
    if not near(p, v, 1e-9):
        bad('phase velocity', p, v)
        return
    if not near(get(s, 'rel_phase_velocity'), v / iso, 1e-9):
        bad('relative velocity', s.rel_phase_velocity, v / iso)
    e = get(s, 'eigenvec')
    if e.shape != (3, 3) or not near(e.dot(e.T), np.eye(3), 0., 1e-10) or not near(M.dot(e.T), e.T * v ** 2, 0., 1e-9 * v[2] ** 2):
        bad('polarisation', e, u)
        return
    if not near(get(s, 'eigenval'), v ** 2, 1e-9):
        bad('eigenvalues', s.eigenval, v ** 2)
    # group velocities: of the polarisations reported, whatever those of coincident waves are
    g = group(c4, rho, q, v, e)
    a = np.linalg.norm(g, axis=1)
    if not near(get(s, 'group_velocity'), g, 1e-8, 1e-8 * v[2]):
        bad('group velocity', s.group_velocity, g)
        return
    if not near(get(s, 'group_velocity').dot(q), v, 1e-9):
        bad('projection of group velocity', s.group_velocity, v)
    if not near(get(s, 'group_abs'), a, 1e-9):
        bad('group speed', s.group_abs, a)
    if not near(get(s, 'rel_group_velocity'), a / iso, 1e-9):
        bad('relative group velocity', s.rel_group_velocity, a / iso)
    if not near(get(s, 'group_dir'), g / a[:, None], 0., 1e-8):
        bad('group direction', s.group_dir, g / a[:, None])
    for n in range(3):
        if not angles_of(float(s.group_theta[n]), float(s.group_phi[n]), g[n] / a[n]):
            bad('group angles', (s.group_theta[n], s.group_phi[n]), polar(g[n] / a[n]))
    c = np.clip(v / a, -1., 1.)
    if not near(np.cos(get(s, 'powerflow_angle')), c, 0., 2e-9) or np.any(get(s, 'powerflow_angle') < 0):
        bad('power flow angle', s.powerflow_angle, np.arccos(c))
    if not near(get(s, 'grad_eigenval'), 2 * v[:, None] * g, 1e-8, 1e-8 * v[2] ** 2):
        bad('gradient', s.grad_eigenval, 2 * v[:, None] * g)
    if separated(v):
        r.see(key, tuple(np.round(v, 6)))
        if hard:
            A, B = enhancement(c4, rho, q), get(s, 'enhancement')
            for n in range(3):
                if .02 < A[n] < 50. and not near(B[n], A[n], 1e-4 * max(1., A[n]) + 1e-4):
                    bad('enhancement', B, A)
                    break


def calculator():
    """SeismicCalculator; the plotting module needs a package the repository has not"""
    n = 'quantas.seismic.utils.seismic_plotter'
    if n not in sys.modules:
        try:
            __import__(n)
        except ImportError:
            m = types.ModuleType(n)
            m.SeismicPlotter = object
            sys.modules[n] = m
    from quantas.seismic.seismic import SeismicCalculator
    return SeismicCalculator


def cases(tier):
    th = tier == 'thorough'
    for name in CLASSES:
        for k in range(len(TENSORS)):
            yield ['lattice', name, k, 7 if th else 15]
            yield ['vectors', name, k]
            yield ['symmetry', name, k]
    for name in ('cubic', 'triclinic', 'monoclinic', 'hexagonal'):
        yield ['order', name]
        for i in range(6):
            yield ['pairs', name, i]
    for name in ('cubic', 'trigonal_low', 'triclinic'):
        for grid in ((2, 2), (3, 5), (5, 9), (4, 3)):
            yield ['surface', name, list(grid)]
    for i in range(4):
        yield ['averages', i]
    for name in CLASSES:
        yield ['elements', name]


def run_case(case):
    from quantas.seismic.utils.seismic_obj import Seismic, cofactor, vector
    r = Result()
    kind, name = case[0], case[1]
    if kind in ('lattice', 'vectors', 'symmetry'):
        k, seed, rho = TENSORS[case[2]]
        C = make(name, k, seed)
        if C is None:
            return r
        c4 = el.full(C)
        keep = C.copy()
        s = Seismic(C, rho)
        if kind == 'lattice':
            step = case[3]
            for t in range(0, 181, step):
                for p in range(-180 + step // 2, 361, 2 * step):
                    th, ph = math.radians(t), math.radians(p)
                    s.spherical_direction(th, ph)
                    if s.theta != th or s.phi != ph:
                        r.fail('lattice:given', 'angles %r, %r kept as %r, %r' % (th, ph, s.theta, s.phi))
                    one(r, 'lattice', s, C, c4, rho, el.direction(th, ph), hard=(t + p) % 2 == 0)
        elif kind == 'vectors':
            for d in itertools.product((-2., -1., 0., .5, 1.), repeat=3):
                if not any(d):
                    continue
                for scale in (1., 1e-3, 250.):
                    x = np.array(d) * scale
                    keepx = x.copy()
                    s.cartesian_direction(x)
                    one(r, 'vectors', s, C, c4, rho, keepx / np.linalg.norm(keepx), hard=scale == 1.)
                    if not np.array_equal(x, keepx):
                        r.fail('vectors:argument', 'the vector given was changed')
        else:
            ops = el.group(name) if name != 'isotropic' else [el.rotation(a, b) for a in ([1, 2, 3], [0, 1, 1]) for b in (.3, 1.7)]
            dirs = [np.array(d) / np.linalg.norm(d) for d in ([.3, .5, .8], [-.2, .9, .1], [.7, -.1, -.4], [1., 2., 0.])]
            for q in dirs:
                s.cartesian_direction(q)
                v, g = get(s, 'phase_velocity'), get(s, 'group_velocity')
                ok = separated(v)
                A = get(s, 'enhancement') if ok else None
                for R in [x * f for x in ops for f in (1., -1.)]:
                    s.cartesian_direction(R.dot(q))
                    r.steps += 1
                    if not near(get(s, 'phase_velocity'), v, 1e-8):
                        r.fail('symmetry:velocity', '%s: %r along %r, %r along the equivalent %r' % (name, v, q, s.phase_velocity, R.dot(q)))
                    elif ok and not near(get(s, 'group_velocity'), g.dot(R.T), 1e-6, 1e-6 * v[2]):
                        r.fail('symmetry:group', '%s: %r along %r, %r along the equivalent %r' % (name, g, q, s.group_velocity, R.dot(q)))
                    elif ok and np.all((A > .02) & (A < 50)) and not near(get(s, 'enhancement'), A, 1e-5):
                        r.fail('symmetry:enhancement', '%s: %r along %r, %r along the equivalent %r' % (name, A, q, s.enhancement, R.dot(q)))
                # another frame: the rotated crystal along the rotated direction
                for R in (el.rotation([1, 2, 3], .7), el.rotation([-1, .5, 2], 2.2)):
                    s2 = Seismic(el.voigt(el.rotate(c4, R)), rho)
                    s2.cartesian_direction(R.dot(q))
                    r.steps += 1
                    if not near(get(s2, 'phase_velocity'), v, 1e-8) or (ok and not near(get(s2, 'group_velocity'), g.dot(R.T), 1e-6, 1e-6 * v[2])):
                        r.fail('frame', '%s: %r and %r along %r, %r and %r in a rotated frame' % (name, v, g, q, s2.phase_velocity, s2.group_velocity))
                r.see(name, case[2], tuple(q))
        if not np.array_equal(C, keep):
            r.fail('matrix', 'the moduli given were changed')
    elif kind == 'order':
        C = make(name, 'N', 1)
        q = np.array([.3, -.5, .8]) / np.linalg.norm([.3, -.5, .8])
        ref = {}
        for n in PROPS:
            s = Seismic(C, 3000.)
            s.cartesian_direction(q)
            ref[n] = get(s, n)
        for a, b, c in itertools.permutations(PROPS, 3):
            s = Seismic(C, 3000.)
            s.cartesian_direction(q)
            for n in (a, b, c, a):
                r.steps += 1
                if not near(get(s, n), ref[n], 1e-9, 1e-9):
                    r.fail('order:' + n, '%s after %r is %r, alone %r' % (n, (a, b, c), get(s, n), ref[n]))
            r.see(name, a, b, c)
        for ops in itertools.product(('solve', 'solve_group', 'clear'), repeat=3):
            s = Seismic(C, 3000.)
            s.cartesian_direction(q)
            for o in ops:
                getattr(s, o)()
                if o == 'clear':
                    s.cartesian_direction(q)
            for n in PROPS:
                if not near(get(s, n), ref[n], 1e-9, 1e-9):
                    r.fail('order:' + n, '%s after %r is %r, alone %r' % (n, ops, get(s, n), ref[n]))
            r.steps += 3
    elif kind == 'pairs':
        C = make(name, 'N', 1)
        other = make('orthorhombic', 'N', 2)
        D = [np.array(d) / np.linalg.norm(d) for d in ([1, 0, 0], [0, 0, 1], [.3, -.5, .8], [-1, 1, .2], [0, -1, -1], [.6, .1, -.2])]
        for j in range(len(D)):
            for n1 in PROPS:
                for way in ('cartesian', 'spherical'):
                    s, t = Seismic(C, 3000.), Seismic(other, 4000.)
                    s.cartesian_direction(D[case[2]])
                    t.cartesian_direction(D[case[2]])
                    x = get(s, n1)
                    get(t, n1)
                    if way == 'cartesian':
                        s.cartesian_direction(D[j])
                    else:
                        s.spherical_direction(*polar(D[j]))
                    t.cartesian_direction(D[(j + 1) % len(D)])
                    one(r, 'pairs', s, C, el.full(C), 3000., D[j], hard=False)
                    one(r, 'pairs:other', t, other, el.full(other), 4000., D[(j + 1) % len(D)], hard=False)
    elif kind == 'averages':
        for nm in CLASSES:
            C = make(nm, 'N', case[1])
            if C is None:
                continue
            for rho in (1000., 3300., 19000.):
                s = Seismic(C, rho)
                K, G = el.averages(C)[2][0], el.averages(C)[2][2]
                iso = np.sqrt(1000. / rho * np.array([G, G, K + 4. * G / 3.]))
                r.steps += 1
                for what, got, want in (('bulk modulus', s.bulk_modulus, K), ('shear modulus', s.shear_modulus, G), ('isotropic velocities', s.isotropic_velocity, iso), ('iso_S', s.iso_S, iso[0]),
                                        ('iso_P', s.iso_P, iso[2]), ('stiffness', s.stiffness, C), ('compliance', s.compliance, np.linalg.inv(C))):
                    if not near(got, want, 1e-9, 1e-9):
                        r.fail('average:' + what.replace(' ', '-'), '%s of %r at %r kg/m3 is %r, not %r' % (what, C, rho, got, want))
                r.see(nm, case[1], rho)
    elif kind == 'elements':
        C = make(name, 'N', 0)
        s = Seismic(C, 1000.)
        c4, s4 = el.full(C), el.compliance4(C)
        for i in itertools.product(range(3), repeat=4):
            r.steps += 1
            if not near(s.C_ijkl(i), c4[i], 1e-12) or not near(s.S_ijkl(i), s4[i], 1e-9, 1e-12):
                r.fail('element', '%s, element %r: %r, %r' % (name, i, s.C_ijkl(i), s.S_ijkl(i)))
            r.see(name, i)
        for m in (np.eye(3), np.arange(9.).reshape(3, 3), np.diag([1., 2., 0.]), np.ones((3, 3)), np.array([[2., 1, 0], [1, 3, -1], [0, 4, 1]]), np.zeros((3, 3)), np.diag([1., 0., 0.])):
            want = np.array([[(-1) ** (i + j) * np.linalg.det(np.delete(np.delete(m, i, 0), j, 1)) for j in range(3)] for i in range(3)])
            if not near(cofactor(m), want, 1e-9, 1e-9):
                r.fail('cofactor', 'cofactor of %r is %r, not %r' % (m, cofactor(m), want))
        for t, p in itertools.product(np.linspace(0., np.pi, 9), np.linspace(-np.pi, 2 * np.pi, 13)):
            if not near(vector(t, p), el.direction(t, p), 0., 1e-12):
                r.fail('vector', 'vector(%r, %r) is %r' % (t, p, vector(t, p)))
    else:
        surface(r, name, *case[2])
    return r


def surface(r, name, nt, np_):
    Calc = calculator()
    C = make(name, 'N', 0)
    rho = 3300.
    with scratch():
        with open('in.dat', 'w') as f:
            f.write('surface\n' + ''.join(' '.join('%.6f' % x for x in row) + '\n' for row in C) + '%r\n' % rho)
        C = np.round(C, 6)
        with quiet():
            c = Calc(dict(silent=True, debug=False, logfile=None, ntheta=nt, nphi=np_, pressure_unit='GPa', plotting=False))
            err = c.read_input('in.dat')
            if err is None:
                c.run()
                c.export_hdf5('out.hdf5')
        if err is not None or not c.completed:
            r.fail('surface:refused', '%r' % err)
            return
        D, info = cli.h5('out.hdf5')
        c4 = el.full(C)
        K, G = el.averages(C)[2][0], el.averages(C)[2][2]
        iso = np.sqrt(1000. / rho * np.array([G, G, K + 4. * G / 3.]))
        for n, ds in enumerate(('ssecondary', 'fsecondary', 'primary')):
            x = D[ds][0]
            if x.shape != (nt * np_, 14):
                r.fail('surface:shape', '%s is %r' % (ds, x.shape))
                continue
            for i, (t, p) in enumerate(itertools.product(np.linspace(0., np.pi / 2, nt), np.linspace(0., 2 * np.pi, np_))):
                q = el.direction(t, p)
                v, u, M = eig(c4, rho, q)
                row = x[i]
                r.steps += 1
                e = row[4:7]
                g = np.einsum('ijkl,i,l,j->k', c4, e, e, q) * 1000. / rho / v[n]
                a = np.linalg.norm(g)
                want = [('theta', row[0], t, 1e-12), ('phi', row[1], p, 1e-12), ('phase velocity', row[2], v[n], 1e-8), ('relative phase velocity', row[3], 100 * (v[n] / iso[n] - 1), 1e-6),
                        ('polarisation', M.dot(e), v[n] ** 2 * e, 1e-7), ('unit polarisation', np.linalg.norm(e), 1., 1e-10), ('group speed', row[7], a, 1e-7),
                        ('relative group speed', row[8], 100 * (a / iso[n] - 1), 1e-5), ('group velocity', row[9:12], g, 1e-7),
                        ('power flow angle', math.cos(math.radians(row[12])), min(1., v[n] / a), 2e-9)]
                for what, got, w, tol in want:
                    if not near(got, w, tol, tol * 10):
                        r.fail('surface:' + what.replace(' ', '-'), '%s of %s at theta %r, phi %r is %r, expected %r' % (what, ds, t, p, got, w))
                if separated(v):
                    A = enhancement(c4, rho, q)[n]
                    if .02 < A < 50 and not near(row[13], A, 1e-3 * max(1., A)):
                        r.fail('surface:enhancement', 'enhancement of %s at theta %r, phi %r is %r, expected %r' % (ds, t, p, row[13], A))
            r.see(name, nt, np_, ds)
        if 'GPa' not in info:
            r.fail('surface:info', '%r' % info)
