"""C14 elastic averages and directional properties against the fourth-rank tensor."""
import math

import numpy as np

from mc import cli, elast as el
from mc.core import Result, scratch, close, quiet
from mc import soecrun
from checks.c15 import tensor, isotropic

PROPERTY = 'C14'
RULE = ('every crystal class x tensor alphabet (mild, strongly anisotropic, auxetic, soft, stiff) x every direction of an integer lattice (both signs, angles in several ranges) x transverse '
        'angles; the group operations of the class; planar sections through the calculator and the CLI')
ASSUMPTIONS = ['tensors of the alphabet', 'xz and yz sections are measured from z, xy from x', 'section extremes over the transverse '
               'direction may be numerical in the code: 0.2% of their range is allowed']

CHI = [k * math.pi / 6. for k in range(-3, 12)]


def cases(tier):
    n = 8 if tier == 'thorough' else 3
    for name in el.GEN:
        for kind in 'NA':
            for seed in range(n):
                yield ['points', name, kind, seed, 4 if tier == 'thorough' else 2]
        yield ['section', name, 'N', 0, 37 if tier == 'thorough' else 13]
        yield ['section', name, 'A', 1, 37 if tier == 'thorough' else 13]
        yield ['report', name, 'N', 1]
        yield ['report', name, 'A', 2]
        for kind in 'XSB':
            yield ['points', name, kind, 1, 3 if tier == 'thorough' else 1]
            yield ['section', name, kind, 1, 37 if tier == 'thorough' else 9]
            yield ['report', name, kind, 1]
    yield ['points', 'isotropic', 'I', 0, 2]
    yield ['polar', 'orthorhombic', 'N', 0]
    if tier == 'thorough':
        for name in el.GEN:
            yield ['polar', name, 'A', 1]


def objects(C, rho, name):
    from quantas.soec.utils.soec_obj import SOEC, SOECOrtho
    o = SOEC(C.copy(), rho)
    out = [('general', o)]
    if name in ('cubic', 'hexagonal', 'tetragonal_high', 'orthorhombic', 'isotropic'):
        out.append(('orthorhombic', SOECOrtho(SOEC(C.copy(), rho))))
    return out


def cmp(r, key, got, want, rtol=1e-9, atol=1e-12, note=''):
    if not close(np.asarray(got, dtype=float), want, rtol=rtol, atol=atol):
        r.fail(key, '%s: %r, the tensor says %r %s' % (key, np.asarray(got), np.asarray(want), note))


def section(r, key, C, rho, data, plane, labels=None):
    """data: {E, LC, G, Nu, waves} with the angle [deg] in the first column"""
    S = el.compliance4(C)
    for q, d in data.items():
        d = np.asarray(d, dtype=float)
        for row in d:
            a = math.radians(row[0])
            n = {'xy': [math.cos(a), math.sin(a), 0], 'xz': [math.sin(a), 0, math.cos(a)], 'yz': [0, math.sin(a), math.cos(a)]}[plane]
            n = np.array(n)
            r.steps += 1
            if q == 'E':
                want, tol = [el.young(S, n)], [1e-9]
            elif q == 'LC':
                b = 1000. * el.lincomp(S, n)
                want, tol = [max(0, b), max(0, -b)], [1e-9] * 2
            elif q == 'waves':
                want, tol = el.speeds(C, rho, n), [1e-9] * 3
            else:
                g, nu = el.transverse_extremes(S, n)
                if q == 'G':
                    w = .002 * (g[1] - g[0]) + 1e-3
                    want, tol = g, [w, w]
                    if not (row[1] >= g[0] * (1 - 1e-9) and row[2] <= g[1] * (1 + 1e-9)):
                        r.fail(key + ':bound', 'section %s at %r deg: shear %r outside %r' % (plane, row[0], row[1:], g))
                else:
                    w = .002 * (nu[1] - nu[0]) + 1e-5
                    want, tol = [min(0, nu[0]), max(0, nu[0]), nu[1]], [w] * 3
            got = row[1:]
            bad = len(got) != len(want)
            for x, y, t in zip(got, want, tol):
                bad = bad or abs(x - y) > (t if q in ('G', 'Nu') else t * abs(y) + 1e-9)
            if bad:
                r.fail('%s:%s:%s' % (key, q, plane), 'section %s at %r deg: %s is %r, the tensor says %r' % (plane, row[0], q, got, want))
                return


def run_case(case):
    r = Result()
    name, kind, seed = case[1:4]
    C = isotropic(100., 60.) if kind == 'I' else tensor(name, kind, seed)
    rho = 2500. + 100. * seed
    S = el.compliance4(C)
    if case[0] == 'points':
        objs = objects(C, rho, name)
        for tag, o in objs:
            cmp(r, tag + ':compliance', o.compliance, np.linalg.inv(C), atol=1e-15)
            cmp(r, tag + ':stiffness', o.stiffness, C)
            avg = el.averages(C)
            cmp(r, tag + ':averages', o.averages(), avg)
            vs, vp = math.sqrt(avg[2][2] * 1e9 / rho) / 1e3, math.sqrt((avg[2][0] + 4 * avg[2][2] / 3) * 1e9 / rho) / 1e3
            cmp(r, tag + ':isotropic', o.isotropic_velocities(), [vs, vs, vp])
        G = el.group(name) if name in el.GEN else [el.rotation([1, 2, 3], .7)]
        for n in el.lattice(case[4]):
            for sign in (1., -1.):
                t, p = el.angles(sign * n)
                # the same direction written with other angles
                forms = [(t, p)] if sign < 0 else [(t, p), (t, p + 2 * math.pi), (-t, p + math.pi), (2 * math.pi - t, p - math.pi)]
                for tt, pp in forms:
                    for mk in (tuple, list, np.array):
                        for tag, o in objs:
                            a = mk([tt, pp])
                            cmp(r, tag + ':E', o.young_modulus(a), el.young(S, n), note='along %r' % (sign * n,))
                            cmp(r, tag + ':LC', o.linear_compressibility(a), 1000 * el.lincomp(S, n), note='along %r' % (sign * n,), atol=1e-9)
                            r.steps += 2
                    w = el.speeds(C, rho, n)
                    for tag, o in objs:
                        v = o.phase_velocity([tt, pp])
                        cmp(r, tag + ':v', v, w, note='along %r' % (sign * n,))
                        cmp(r, tag + ':v1', [o.shear_wave_1([tt, pp]), o.shear_wave_2([tt, pp]), o.longitudinal_wave([tt, pp])], w)
                    r.see(name, kind, seed, tuple(np.round(sign * n, 6)))
                for c in CHI:
                    m = el.normal(t, p, c)
                    for tag, o in objs:
                        cmp(r, tag + ':G', o.shear_modulus([t, p, c]), el.shear(S, n, m), note='along %r, %r' % (n, m))
                        cmp(r, tag + ':nu', o.poisson_ratio([t, p, c]), el.poisson(S, n, m), atol=1e-10, note='along %r, %r' % (n, m))
                        r.steps += 2
            # symmetry operations of the class
            t, p = el.angles(n)
            o = objs[0][1]
            e0, v0 = o.young_modulus([t, p]), o.phase_velocity([t, p])
            for g in G:
                a = el.angles(g.dot(n))
                cmp(r, 'symmetry:E', o.young_modulus(a), e0, rtol=1e-7)
                cmp(r, 'symmetry:v', o.phase_velocity(a), v0, rtol=1e-7)
                r.steps += 2
    elif case[0] == 'section':
        from quantas.soec.soec import SOECCalculator
        with scratch(), quiet():
            from checks import c11
            open('a.dat', 'w').write(c11.text(c11.rows_of(C, 'complete', '%.9f'), 'T', repr(rho)))
            calc = SOECCalculator({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa',
                                   'plotting': False, 'dpi': 80, 'outfig': 'x'})
            err = calc.read_input('a.dat')
            if err is not None:
                r.fail('section:read', '%r' % err)
                return r
            calc.calculate_polar_properties(case[4])
            C = calc.soec.stiffness.copy()
            for plane, d in calc.results['polar'].items():
                section(r, 'section', C, rho, d, plane)
                for q in d:
                    ang = np.asarray(d[q])[:, 0]
                    if not close(ang, np.linspace(0, 360, case[4]), atol=1e-9):
                        r.fail('section:angles', 'angles of %s %s: %r' % (q, plane, ang))
                    r.see(name, kind, seed, plane, q)
            if set(calc.results['polar']) != {'xy', 'xz', 'yz'}:
                r.fail('section:planes', repr(list(calc.results['polar'])))
    elif case[0] == 'report':
        for dens in (rho, None):
            with scratch():
                run, C = soecrun.analyse(C, dens)
                r.steps += 1
                if run.crashed or run.error:
                    r.fail('report:run', '%s %s' % (run.output[-300:], run.why()))
                    return r
                got = soecrun.parse(run.output)
                data, info = cli.h5('a_SOEC.hdf5')
            s = np.linalg.inv(C)
            cmp(r, 'report:compliance', got['compliance'], 1000. * s, atol=6e-7)
            avg = el.averages(C)
            cmp(r, 'report:averages', got['averages'], avg, rtol=0, atol=6e-6)
            cmp(r, 'report:eigenvalues', got['eigenvalues'], np.linalg.eigvalsh(C), rtol=0, atol=6e-6)
            if dens is None:
                if got['velocities'] is not None:
                    r.fail('report:velocities', 'wave velocities reported without a density: %r' % (got['velocities'],))
            else:
                k, g = avg[2][0], avg[2][2]
                cmp(r, 'report:velocities', got['velocities'], [math.sqrt(g * 1e9 / rho) / 1e3, math.sqrt((k + 4 * g / 3) * 1e9 / rho) / 1e3],
                    atol=6e-6)
            cmp(r, 'file:stiffness', data['stiffness'][0], C)
            scale = {'TPa^-1': 1000., 'GPa^-1': 1.}.get(data['compliance'][1])
            cmp(r, 'file:compliance', data['compliance'][0], (scale or np.nan) * s, atol=1e-15)
            cmp(r, 'file:averages', data['averages'][0], avg)
            cmp(r, 'file:eigenvalues', np.sort(data['eigenvals'][0]), np.linalg.eigvalsh(C))
            r.see(name, kind, dens)
    else:
        with scratch():
            run, C = soecrun.analyse(C, rho, ['--polar', '-q'])
            r.steps += 1
            if run.crashed or run.error:
                r.fail('polar:run', '%s %s' % (run.output[-300:], run.why()))
                return r
            data, info = cli.h5('a_SOEC.hdf5')
        for plane in ('xy', 'xz', 'yz'):
            section(r, 'polar', C, rho, {q: data['polar_%s_%s' % (q, plane)][0][::7] for q in ('E', 'LC', 'G', 'Nu', 'waves')}, plane)
            r.see(name, plane)
    return r
