"""C04 harmonic analysis through the real CLI: systems x unit configurations x
temperature ranges, HDF5 content against the oscillator model."""
import itertools

import numpy as np

from mc import cli, ref
from mc import systems as sy
from mc.core import Result, close, scratch

PROPERTY = 'C04'
RULE = ('every system x energy/volume/frequency/temperature unit combination x temperature range through the CLI; '
        'non-trivial: distinct (system, units, range)')
ASSUMPTIONS = ['systems limited to the listed shapes and frequency values']


def systems():
    S = sy.Solid
    return {
        'gamma1': (S(E0=-3., nus=[[0., 0., 0., 9., 12., 14.]]), [1.]),
        'onevol2q': (S(E0=0., nus=[[-1., 2., 3.], [5., 6.5, 30.]], weights=[1, 3]), [1.02]),
        'twoq': (S(E0=-275., nus=[[0., 0., 0., 9., 12., 14.], [3., 3., 4., 8., 11., 13.]], weights=[1, 7],
                   gammas=[[1., 1., 1., 1.2, 1.5, 0.7], [2., 2., 1.8, 1., 0.5, 1.1]]), [0.92, 0.97, 1., 1.05]),
        'threeq': (S(E0=-1.5, nus=[[0.001, 0.2, 5.], [90., 40., 1.], [7., 7., 7.]], weights=[2, 1, 5]), [0.9, 1.1]),
        'fracw': (S(E0=-1.5, nus=[[1., 2., 5.], [9., 4., 1.]], weights=[0.25, 0.75]), [0.95, 1., 1.03]),
    }


TR = {'def': None, 'zero': (0., 600., 150.), 'one': (298.15, 298.15, 1.), 'dec': (0.1, 0.7, 0.2), 'high': (1000., 3000., 1000.)}


def cases(tier):
    for name in systems():
        for e, v, f, t in itertools.product(('Ha', 'eV', 'Ry'), ('A', 'bohr'), ('cm-1', 'THz', 'Hz'), ('K', 'C')):
            for tr in (TR if tier == 'thorough' or (e, v, f) in (('Ha', 'A', 'cm-1'), ('eV', 'bohr', 'THz'))
                       else ('zero',)):
                yield [name, e, v, f, t, tr]


def run_case(case):
    name, e, v, f, t, tr = case
    r = Result()
    s, ratio = systems()[name]
    V = s.V0 * np.array(ratio)
    shift = 273.15 if t == 'C' else 0.
    with scratch():
        with open('sys.yaml', 'w') as fh:
            fh.write(sy.yaml_text(s, V, e, v, f, job='System %s' % name))
        args = ['ha', 'sys.yaml', '--eunit', e, '--vunit', v, '--funit', f, '--tunit', t]
        if TR[tr] is not None:
            lo, hi, st = TR[tr]
            args += ['-T', repr(lo - shift), repr(hi - shift), repr(st)]
        run = cli.quantas(args)
        r.steps += 1
        if run.crashed or run.error:
            r.fail('run', '%r failed: %s\n%s' % (args, run.output[-400:], run.why()))
            return r
        data, info = cli.h5('sys_HA.hdf5')
    lo, hi, st = TR[tr] or (298.15 + shift, 298.15 + shift, 1.)
    T = lo + st * np.arange(int(np.floor((hi - lo) / st + 1e-6)) + 1)
    h = s.harmonic(T, V)
    E = sy.E_SI[e]
    u0 = np.broadcast_to(h['u0'], h['f'].shape)
    want = {'U0': h['u0'] / E, 'Uzp': h['zpe'][:1] / E, 'Uth': h['uth'] / E, 'Fvib': h['f'] / E,
            'Utot': (u0 + h['zpe'] + h['uth']) / E, 'F': (u0 + h['f']) / E,
            'S': h['s'] * 1000. / E, 'Cv': h['cv'] * 1000. / E, 'V': V / sy.L_SI[v] ** 3, 'T': T - shift}
    for k, w in want.items():
        if k not in data:
            r.fail('missing:' + k, 'dataset %s missing' % k)
            continue
        g = data[k][0]
        if g.shape != w.shape:
            if k == 'Uzp' and g.size == w.shape[1] * len(T) and g.ndim == 2:
                w = np.broadcast_to(w, g.shape)
            else:
                r.fail('shape:' + k, '%s has shape %r, expected %r' % (k, g.shape, w.shape))
                continue
        if not close(g, w, rtol=2e-9, atol=1e-9 if k == 'T' else 1e-13 * sy.E_SI['Ha'] / E):
            r.fail('value:%s' % k, '%s in %r: %r, expected %r' % (k, case, g.tolist(), w.tolist()))
    if not r.bad:
        d = {k: x[0] for k, x in data.items()}
        if not close(d['Utot'], d['U0'] + d['Uzp'] + d['Uth'], rtol=1e-13):
            r.fail('id:Utot', 'Utot != U0+Uzp+Uth')
        if not close(d['F'], d['U0'] + d['Fvib'], rtol=1e-13):
            r.fail('id:F', 'F != U0+Fvib')
        if not close(d['Fvib'], d['Uzp'] + d['Uth'] - T[:, None] * d['S'] / 1000., rtol=1e-8, atol=1e-12):
            r.fail('id:F=U-TS', 'Fvib != U-TS')
        r.see(*case)
    return r
