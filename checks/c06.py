"""C06 temperature/pressure ranges against exact decimal arithmetic."""
import itertools
import os
from decimal import Decimal as D

import numpy as np

from mc import cli
from mc import systems as sy
from mc.core import Result, close, scratch, quiet

PROPERTY = 'C06'
RULE = ('every (min, max, step) of the alphabets, as decimal strings, for temperature and pressure of both calculators; '
        'a subset end to end through the CLI; non-trivial: distinct request')
ASSUMPTIONS = ['requests are decimal numbers of at most 6 significant digits']

MINS = ['0', '0.1', '273.15', '-5', '-0.3', '298.15', '10', '1e-3']
SPANS = ['0', '0.1', '0.3', '0.7', '0.9', '1', '1.1', '2.9', '3', '7', '10', '10.5', '33.3', '100', '500', '1000', '1701.85']
STEPS = ['0.1', '0.2', '0.3', '0.7', '1', '1.1', '2.5', '3', '5', '7', '10', '12.5', '33.3', '50', '0.01', '1000']


def exact(lo, hi, st):
    lo, hi, st = D(lo), D(hi), D(st)
    out, k = [], 0
    while lo + k * st <= hi:
        out.append(float(lo + k * st))
        k += 1
    return out


def cases(tier):
    for lo in MINS:
        for st in STEPS:
            yield ['grid', lo, st]
    for lo, sp, st in (('0', '1', '0.1'), ('273.15', '3', '0.7'), ('0', '0', '1'), ('10', '33.3', '10'),
                       ('0.1', '0.7', '0.3'), ('300', '900', '300'), ('298.15', '500', '7')):
        for tu in ('K', 'C'):
            yield ['ha', lo, sp, st, tu]
            yield ['qha', lo, sp, st, tu]
            if tier == 'thorough':
                yield ['qhaeos', lo, sp, st, tu]
    for tr in TR:
        for pr in PR if tier == 'thorough' else PR[:6]:
            yield ['states', tr, pr]
    yield ['bad']


TR = [('0', '20', '20'), ('298.15', '50', '12.5'), ('0.1', '0.7', '0.3'), ('-5', '10', '2.5'), ('273.15', '0', '1'), ('300', '900', '33.3'), ('300.25', '1.5', '0.75')]
PR = [('0', '1', '0.25'), ('-0.3', '1', '0.3'), ('0.125', '0.5', '0.125'), ('1.05', '0', '1'), ('0', '10', '3.3'), ('-1', '0.07', '0.01'), ('0', '0.9', '0.1'), ('-0.06', '1.2', '0.6'), ('2', '10', '10')]

SET = dict(energy_unit='Ha', frequency_unit='THz', lenght_unit='A', temperature_unit='K', pressure_unit='GPa',
           silent=True, logfile=None, debug=False, qha_scheme='td', minimization='poly', kieffer=False,
           eos_function='vinet', eos='V', edeg=3, fdeg=3)


def check(r, tag, got, want, req):
    got = np.asarray(got, dtype=float)
    if got.shape != (len(want),):
        r.fail('%s:count' % tag, '%s for %r has %d points, expected %d: %r' % (
            tag, req, got.size, len(want), got.tolist()[:12]))
    elif not close(got, want, rtol=1e-11, atol=1e-10):
        r.fail('%s:values' % tag, '%s for %r: %r expected %r' % (tag, req, got.tolist(), want))


def states(r, tr, pr):
    """every state of a grid is the one computed when it is asked alone, and is
    stored, reported and exported under its own temperature and pressure"""
    s = sy.Solid(E0=-3.)
    V = sy.volumes(s, 6)
    hi = [str(D(x[0]) + D(x[1])) for x in (tr, pr)]
    for tu, pu, mini, scheme in itertools.product('KC', ('GPa', 'kbar'), ('poly', 'eos'), ('freq', 'td')):
        if tu == 'K' and tr[0][0] == '-':
            continue
        T, P = exact(tr[0], hi[0], tr[2]), exact(pr[0], hi[1], pr[2])
        opts = ['--tunit', tu, '--punit', pu, '-m', mini, '-s', scheme]
        with scratch():
            open('a.yaml', 'w').write(sy.yaml_text(s, V))
            run = cli.quantas(['qha', 'a.yaml', '-T', tr[0], hi[0], tr[2], '-P', pr[0], hi[1], pr[2], '-o', 'out'] + opts)
            r.steps += 1
            say = '%r %r %r' % (tr, pr, opts)
            if run.crashed or run.error:
                r.fail('states:run', '%s: %s %s' % (say, run.output[-300:], run.why()))
                continue
            data = cli.h5('out.hdf5')[0]
            check(r, 'states:T', data['T'][0], T, say)
            check(r, 'states:P', data['P'][0], P, say)
            if data['T'][1] != tu or data['P'][1] != pu:
                r.fail('states:unit', '%s: units %r %r' % (say, data['T'][1], data['P'][1]))
            if data['VT'][0].shape != (len(T), len(P)):
                r.fail('states:shape', '%s: volumes %r' % (say, data['VT'][0].shape))
                continue
            for text, where in ((open('out.txt').read(), 'log'), (run.output, 'screen')):
                seen, rows = [], []
                for l in text.split('\n'):
                    w = l.split()
                    if l.startswith('# Results at '):
                        seen.append((float(w[3]), w[4]))
                        rows.append([])
                    elif seen and len(w) == 6 and w[0].replace('.', '').replace('-', '').isdigit():
                        rows[-1].append([float(x) for x in w])
                if [u for p, u in seen] != [pu] * len(P) or not close([p for p, u in seen], P, atol=1e-6):
                    r.fail('states:report', '%s: pressures in the %s %r' % (say, where, seen))
                    continue
                for j in range(len(P)):
                    a = np.array(rows[j])
                    if a.shape != (len(T), 6) or not close(a[:, 0], T, atol=.0501) or not close(a[:, 1], data['VT'][0][:, j], atol=6e-7):
                        r.fail('states:rows', '%s: rows at %r in the %s: %r' % (say, P[j], where, rows[j][:3]))
                        break
            for n in ('G', 'VT'):
                out = cli.quantas(['export', 'qha', 'out.hdf5'], [n, 'n'])
                t = [l.split() for l in open('out_%s.dat' % n) if l.strip()] if os.path.exists('out_%s.dat' % n) else []
                num = [[float(x) for x in l] for l in t if all(x.replace('.', '').replace('-', '').replace('+', '').replace('E', '').replace('e', '').isdigit() for x in l)]
                num = [l for l in num if len(l) == 1 + len(P)]
                if len(num) not in (len(T), len(T) + 1) or not close([l[0] for l in num[-len(T):]], T, atol=.00501):
                    r.fail('states:export', '%s: table of %s %r' % (say, n, t[:8]))
            for i in sorted(set((0, len(T) // 2, len(T) - 1))):
                for j in sorted(set((0, len(P) // 2, len(P) - 1))):
                    one = cli.quantas(['qha', 'a.yaml', '-q', '-T', repr(T[i]), repr(T[i]), '1', '-P', repr(P[j]), repr(P[j]), '1', '-o', 'one'] + opts, ['y'])
                    r.steps += 1
                    if one.crashed or one.error:
                        r.fail('states:run', '%s at %r %r: %s' % (say, T[i], P[j], one.output[-300:]))
                        continue
                    D1 = cli.h5('one.hdf5')[0]
                    for n in ('VT', 'G', 'F', 'S', 'KT'):
                        if not close(D1[n][0][0, 0], data[n][0][i, j], rtol=1e-5 if n == 'KT' else 1e-6):
                            r.fail('states:alone', '%s: %s at %r, %r is %r, alone %r' % (say, n, T[i], P[j], data[n][0][i, j], D1[n][0][0, 0]))
            r.see(say)


def run_case(case):
    r = Result()
    if case[0] == 'states':
        states(r, *case[1:])
        return r
    if case[0] == 'grid':
        from quantas.harmonic.harmonic import HACalculator
        from quantas.qha.qha import QHACalculator
        _, lo, st = case
        for sp in SPANS:
            if D(sp) / D(st) > 20000:
                continue
            hi = str(D(lo) + D(sp))
            want = exact(lo, hi, st)
            req = (float(lo), float(hi), float(st))
            ha = HACalculator(dict(SET, trange=req))
            check(r, 'ha.T', ha.temperature, want, req)
            q = QHACalculator(dict(SET, trange=req, prange=(0., 0., 1.)))
            check(r, 'qha.T', q.temperature, want, req)
            check(r, 'qha.P0', q.pressure, [0.], req)
            q = QHACalculator(dict(SET, trange=(1., 1., 1.), prange=req))
            check(r, 'qha.P', q.pressure, want, req)
            check(r, 'qha.T1', q.temperature, [1.], req)
            r.steps += 3
            r.see(lo, sp, st)
    elif case[0] == 'bad':
        with scratch():
            s = sy.Solid(E0=-3.)
            open('a.yaml', 'w').write(sy.yaml_text(s, sy.volumes(s, 5)))
            for cmd in ('ha', 'qha'):
                for opt in ('-T', '-P'):
                    if cmd == 'ha' and opt == '-P':
                        continue
                    for rg in (('0', '10', '0'), ('10', '0', '1'), ('0', '10', '-1'), ('0', 'x', '1')):
                        run = cli.quantas([cmd, 'a.yaml', opt] + list(rg))
                        r.steps += 1
                        r.see(cmd, opt, rg)
                        if run.crashed or not run.error:
                            r.fail('bad:%s%s' % (cmd, opt), '%r: %s %s' % (rg, run.output[-300:], run.why()))
    else:
        cmd, lo, sp, st, tu = case
        hi = str(D(lo) + D(sp))
        want = exact(lo, hi, st)
        s = sy.Solid(E0=-3.)
        off = 273.15 if tu == 'C' else 0.
        with scratch():
            open('a.yaml', 'w').write(sy.yaml_text(s, sy.volumes(s, 6)))
            args = [cmd[:3], 'a.yaml', '-q', '-T', lo, hi, st, '--tunit', tu, '-o', 'out'] if cmd != 'ha' else \
                ['ha', 'a.yaml', '-q', '-T', lo, hi, st, '--tunit', tu, '-o', 'out']
            if cmd == 'qhaeos':
                args += ['-m', 'eos']
            if cmd != 'ha':
                args += ['-P', '0', '1.1', '0.1']
            run = cli.quantas(args)
            r.steps += 1
            if run.crashed or run.error:
                r.fail(cmd + ':run', '%r: %s %s' % (args, run.output[-300:], run.why()))
                return r
            data, info = cli.h5('out.hdf5')
            log = open('out.txt').read()
        check(r, cmd + ':T', data['T'][0], want, case)
        n2 = data['V'][0].shape[0] if cmd == 'ha' else 12
        if cmd != 'ha':
            check(r, cmd + ':P', data['P'][0], exact('0', '1.1', '0.1'), case)
        if data['S'][0].shape != (len(want), n2):
            r.fail(cmd + ':shape', 'S has shape %r' % (data['S'][0].shape,))
        elif cmd == 'ha':
            ref = s.harmonic(np.array(want) + off, sy.volumes(s, 6))
            if not close(data['S'][0], ref['s'] * 1000. / sy.E_SI['Ha'], rtol=1e-8, atol=1e-12):
                r.fail(cmd + ':row', 'entropy rows do not belong to the reported temperatures')
        else:
            rows = [l for l in log.splitlines() if len(l.split()) == 6 and l[:1] == ' ' and l.split()[0].replace('.', '').replace('-', '').isdigit()]
            shown = [float(l.split()[0]) for l in rows]
            if len(rows) != len(want) * 12 or not close(shown[:len(want)], want, atol=0.0501):
                r.fail(cmd + ':report', 'the report shows %d rows: %r' % (len(rows), shown[:10]))
            if not close(data['VT'][0][0, 0] / (s.volume(want[0] + off, 0.) * 1e30), 1., rtol=3e-3):
                r.fail(cmd + ':row', 'V(T,P=0) off')
        r.see(*case)
    return r
