"""C08: fits of P-V, P-l and E-V equations of state."""
import itertools

import numpy as np
from scipy.optimize import least_squares

from mc.core import Result, close, quiet, scratch
from mc import cli
from mc import eosref as er
from checks import c10

PROPERTY = 'C08'
RULE = ('every formulation x order x volume/axis x subset of fixed parameters x weights (none, P, V, both) on exact data (recovery, also from a grid of far starts) and '
        'on data with a fixed error pattern (the returned parameters must be the weighted optimum and carry its statistics; the report of the command must say so); every '
        'ordered pair/triple of fits on one object against fresh fits; states are the distinct fits')
ASSUMPTIONS = ['data on the compression range of experiments (V/V0 0.85-1)', 'start: the program\'s own guess, or K0 x0.3-3, K\' x0.5-2, V0 x0.98-1.03 (order 4: smaller, without Tait)']

TRUE = {'Murnaghan': (5.,), 'BirchMurnaghan': (4.6, 5.4), 'NaturalStrain': (3., 4.1), 'Vinet': (4.3, 5.5), 'Tait': (4.6, 5.4)}
NOISE = np.array([1, -1, .5, .3, -.7, .9, -.4, -.8, .6, -.2, .1, -.5])
WEIGHTS = ((False, False), (True, False), (False, True), (True, True))


def truth(name, order, linear, kpi=0, k=160.):
    kp = TRUE[name][min(kpi, len(TRUE[name]) - 1)] * (3. if linear else 1.)
    p = er.implied(name, order, (k, kp, 0., 4.21 if linear else 74.8), linear)
    if order == 4:
        p = (p[0], p[1], er.implied(name, 3, p, linear)[2] * 1.15, p[3])
    return p


def dataset(name, order, linear, kpi=0, k=160., n=12):
    p = truth(name, order, linear, kpi, k)
    V = p[3] * np.linspace(.998, .95 if linear else .85, n)
    return p, V, er.pressure(name, order, p, V, linear)


def configs(tier):
    for name in er.NAMES:
        for order in er.ORDERS[name]:
            for linear in (False, True):
                yield name, order, linear


def cases(tier):
    for name, order, linear in configs(tier):
        for w in range(4):
            nfit = sorted(set([0, 3] + ([1] if order > 2 else []) + ([2] if order > 3 else [])))
            for m in range(len(nfit)):
                for sub in itertools.combinations(nfit, m):
                    fixed = [0 if i in sub else 1 for i in range(4)]
                    for kpi in range(2):
                        for k in ((37.3, 160.) if tier == 'quick' else (5., 37.3, 160., 443.)):
                            yield ['exact', name, order, linear, w, fixed, kpi, k]
                    yield ['noisy', name, order, linear, w, fixed, 0.01 if tier == 'quick' else 0.03]
                    yield ['report', name, order, linear, w, fixed]
            yield ['exact', name, order, linear, w, None, 0, 160.]
            yield ['noisy', name, order, linear, w, None, 0.01]
    far = ((.3, .5, 1., 2., 3.), (.5, .7, 1., 1.5, 2.), (.98, .99, 1., 1.01, 1.03))
    for name, order, linear in configs(tier):
        # starts far from the solution (as entered by the user); the fourth-order fits have a smaller basin
        for f in itertools.product(*(far if order < 4 else ((.6, 1., 2.), (.7, 1., 1.3), (.99, 1., 1.02)))):
            for w in range(4):
                if not (name == 'Tait' and order == 4):
                    yield ['start', name, order, linear, w, list(f)]
    for name in er.NAMES:
        for a in itertools.permutations(range(len(H)), 2 if tier == 'quick' else 3):
            yield ['history', name, list(a)]
    for tag in ('murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola'):
        for k in (0.005, 0.037, 0.1):                # Ha/A^3-like
            for kp in (3.1, 4., 5.5):
                for v0 in (74.8, 1120.5):
                    for (lo, hi) in ((.9, 1.06), (.94, 1.04), (.86, 1.), (.96, 1.1)):
                        yield ['energy', tag, k, kp, v0, lo, hi]


def run_case(case):
    r = Result()
    {'exact': exact, 'start': start, 'noisy': noisy, 'report': report, 'history': history, 'energy': energy}[case[0]](case, r)
    r.see(case)
    return r


def sig(w, V, P, linear):
    sv = V * (3e-4 if not linear else 1e-4) * (1. + 0.3 * np.cos(np.arange(len(V))))
    sp = 0.02 * (1. + .5 * np.sin(np.arange(len(V))))
    return (sv if WEIGHTS[w][0] else None), (sp if WEIGHTS[w][1] else None)


def exact(case, r):
    _, name, order, linear, w, fixed, kpi, k = case
    tag = ':'.join(map(str, (name, order, 'axis' if linear else 'volume')))
    p, V, P = dataset(name, order, linear, kpi, k)
    sv, sp = sig(w, V, P, linear)
    eos = er.make(name)
    guess = None
    if fixed is not None:
        guess = np.array(eos.guess(V, P), dtype=float)
        for i in range(4):
            if not fixed[i]:
                guess[i] = p[i]
    keep = None if guess is None else guess.copy()
    a, b = V.copy(), P.copy()
    r.steps += 1
    out = eos.fit(V, P, guess=guess, sigmaV=sv, sigmaP=sp, order=order, linear=linear, fixed=fixed)
    loose = name == 'Tait' and order == 4        # slow convergence of the least squares near its optimum
    for i in (0, 1, 3):
        if not close(out.beta[i], p[i], (1e-3, 1e-2, 0, 1e-5)[i] if loose else (3e-5 if i < 3 else 1e-6)):
            r.fail('recover:' + tag, '%r: the fit of exact data gives %s, the data were made with %s' % (case, out.beta, p))
            break
    if not close(out.beta[2], p[2], 3e-4 if order < 4 else .15 if loose else 3e-3, 1e-7):
        r.fail('recover-kpp:' + tag, '%r: K\'\' reported as %.8g, the data/published value is %.8g' % (case, out.beta[2], p[2]))
    if guess is not None and not np.array_equal(guess, keep):
        r.fail('guess-mutated:' + tag, '%r: the guess %s was changed to %s' % (case, keep, guess))
    if not (np.array_equal(V, a) and np.array_equal(P, b)):
        r.fail('data-mutated:' + tag, '%r: fitting changed the data' % (case,))
    fixed_checks(case, tag, out, guess, fixed, order, r)


def start(case, r):
    """exact data from a start far from the solution"""
    _, name, order, linear, w, f = case
    tag = ':'.join(map(str, (name, order, 'axis' if linear else 'volume')))
    p, V, P = dataset(name, order, linear)
    sv, sp = sig(w, V, P, linear)
    guess = np.array([p[0] * f[0], p[1] * f[1], 0. if order < 4 else p[2], p[3] * f[2]])
    keep = guess.copy()
    r.steps += 1
    out = er.make(name).fit(V, P, guess=guess, sigmaV=sv, sigmaP=sp, order=order, linear=linear, fixed=[1, 1, 1, 1])
    for i in (0, 1, 3):
        if not close(out.beta[i], p[i], 1e-3 if i < 3 else 1e-5):
            r.fail('recover-start:' + tag, '%r: started from %s, the fit of exact data gives %s, the data were made with %s' % (
                case, keep, out.beta, p))
            break
    if not np.array_equal(guess, keep):
        r.fail('guess-mutated:' + tag, '%r: the guess %s was changed to %s' % (case, keep, guess))


def fixed_checks(case, tag, out, start, fixed, order, r):
    if fixed is None:
        return
    implied = {2: (1, 2), 3: (2,), 4: ()}[order]
    for i in range(4):
        if not fixed[i]:
            if out.beta[i] != start[i] and i not in implied:
                r.fail('fixed:' + tag, '%r: parameter %d fixed at %r is reported as %r' % (case, i, start[i], out.beta[i]))
        if (not fixed[i] or i in implied) and out.sd_beta[i] != 0:
            r.fail('fixed-sd:' + tag, '%r: parameter %d is not fitted but has an uncertainty %g' % (case, i, out.sd_beta[i]))


def noisy(case, r):
    """the optimum and its statistics, against an independent solver"""
    _, name, order, linear, w, fixed, amp = case
    tag = ':'.join(map(str, (name, order, 'axis' if linear else 'volume')))
    p, V, P = dataset(name, order, linear, 0)
    P = P + amp * NOISE
    V = V * (1. + (amp * 1e-3 if not linear else amp * 3e-4) * NOISE[::-1])
    sv, sp = sig(w, V, P, linear)
    eos = er.make(name)
    start = np.array(eos.guess(V, P), dtype=float)
    if fixed is not None:
        for i in range(4):
            if not fixed[i]:
                start[i] = p[i] * (1. + .002 * (i + 1) * (i < 3))
    r.steps += 1
    out = eos.fit(V, P, guess=None if fixed is None else start.copy(), sigmaV=sv, sigmaP=sp, order=order, linear=linear, fixed=fixed)
    fixed_checks(case, tag, out, start, fixed, order, r)
    implied = {2: (1, 2), 3: (2,), 4: ()}[order]
    free = [i for i in range(4) if (fixed is None or fixed[i]) and i not in implied and not (name == 'Murnaghan' and i == 2)
            and not (name == 'Vinet' and i == 2)]
    if fixed is None and name == 'Murnaghan':
        free = [0, 1, 3]
    odr = sv is not None
    wp = np.ones(len(P)) if sp is None else 1. / sp
    wv = None if not odr else 1. / sv
    n = len(P)
    loose = name == 'Tait' and order == 4
    scale = np.array([abs(out.beta[i]) or 1. for i in free])

    def full(x):
        q = np.array(start)
        q[free] = x * scale
        return er.implied(name, order, q, linear)

    def res(x):
        q = full(x[:len(free)])
        if not odr:
            return (er.pressure(name, order, q, V, linear) - P) * wp
        d = x[len(free):]
        return np.concatenate([(er.pressure(name, order, q, V + d / wv, linear) - P) * wp, d])
    beta0 = np.array([out.beta[i] for i in free]) / scale
    x0 = beta0 if not odr else np.concatenate([beta0, out.delta * wv])
    s = least_squares(res, x0, method='lm', x_scale='jac', ftol=1e-15, xtol=1e-15, gtol=1e-15)
    ss, got = float(np.sum(s.fun ** 2)), float(np.sum(res(x0) ** 2))
    if got > ss * (1. + (2e-4 if loose else 1e-6)) + 1e-18:
        r.fail('optimum:' + tag, '%r: sum of squares at the reported parameters %s is %.10g, the optimum %s has %.10g' % (
            case, out.beta, got, full(s.x[:len(free)]), ss))
        return
    J = s.jac
    cov = np.linalg.inv(J.T.dot(J))[:len(free), :len(free)] * np.outer(scale, scale)
    dof = n - len(free)
    rv = ss / dof
    if not close(out.res_var, rv, 1e-4):
        r.fail('res_var:' + tag, '%r: residual variance %g reported, %g from the returned parameters' % (case, out.res_var, rv))
    sd = np.sqrt(np.diag(cov) * rv)
    if not close([out.sd_beta[i] for i in free], sd, .1 if loose else 5e-3):
        r.fail('sd:' + tag, '%r: uncertainties %s reported, %s from the normal equations' % (case, out.sd_beta, sd))
    q = full(beta0)
    if not close(out.beta[2], q[2], 1e-3, 1e-6) or not close(out.beta[1], q[1], 1e-9):
        r.fail('implied:' + tag, '%r: reported %s, but the values implied by the fitted ones are %s' % (case, out.beta, q))
    want = er.pressure(name, order, q, V + (out.delta if odr else 0.), linear)
    if not close(out.y, want, 1e-6, 3e-5) or not close(out.eps, want - P, 1e-4, 3e-5):
        r.fail('curve:' + tag, '%r: calculated pressures %s are not those of the returned parameters %s' % (case, out.y, want))


def report(case, r):
    """the same fits by the command: what it prints describes the parameters it prints"""
    _, name, order, linear, w, fixed = case
    tag = ':'.join(map(str, (name, order, 'axis' if linear else 'volume')))
    p, V, P = dataset(name, order, linear, 0)
    P = np.round(P + .02 * NOISE, 5)
    V = np.round(V, 5)
    sv, sp = sig(3, V, P, linear)
    q = 'c' if linear else 'v'
    data = {'p': P, q: V, 'sigmap': np.round(sp, 5), 'sigma' + q: np.round(sv, 5)}
    with scratch():
        with open('in.dat', 'w') as f:
            f.write('JOB\njob\nFORMAT\n%s\nDATA\n' % ' '.join(data))
            for i in range(len(P)):
                f.write(' '.join('%.5f' % data[k][i] for k in data) + '\n')
        form = [k for k in c10.NAMES if c10.NAMES[k] == name][0]
        answers = [q, form, str(order), 'n'] + (['y'] + ['n' if x else 'y' for x in fixed] if 0 in fixed else ['n'])
        answers += ['y', 'y' if WEIGHTS[w][1] else 'n', 'y' if WEIGHTS[w][0] else 'n'] + ['n', 'n', 'n']
        fits, ended, used = c10.model(data, answers)
        assert ended and used == len(answers) and len(fits) == 1, case
        run = cli.quantas(['eosfit', 'in.dat'], answers)
    r.steps += 1
    reps = c10.reports(run.output)
    if run.crashed or len(reps) != 1:
        r.fail('report:' + tag, '%r: %s %s' % (case, run.why(), run.output[-400:]))
        return
    bad = c10.differs(fits[0], reps[0])
    if bad:
        r.fail('report-%s:%s' % (bad[0], tag), '%r: %s' % (case, bad[1]))
        return
    # on its own: the curve printed is that of the parameters printed
    rows = np.array(reps[0]['rows'])
    if not len(rows) or (name == 'Tait' and order == 4):      # near-singular: the digits printed are not enough
        return
    want = er.pressure(name, order, [x[1] for x in reps[0]['par']], rows[:, 0] + rows[:, 1], linear)
    if not close(rows[:, 3], want, 1e-4, 2e-3) or not close(rows[:, 4], rows[:, 3] - rows[:, 2], 1e-4, 2e-5):
        r.fail('report-curve:' + tag, '%r: the calculated pressures %s are not those of the parameters %s' % (case, rows[:, 3], reps[0]['par']))


# (order offset, linear, weights, fix-K')
H = [(0, False, 0, False), (1, False, 3, False), (0, True, 0, False), (1, False, 0, True), (1, True, 3, True), (0, False, 2, False)]


def one(eos, name, h):
    o, linear, w, fixk = h
    order = er.ORDERS[name][min(o, len(er.ORDERS[name]) - 1)]
    p, V, P = dataset(name, order, linear, 1)
    P = P + .01 * NOISE
    sv, sp = sig(w, V, P, linear)
    g = None
    fixed = None
    if fixk:
        g = np.array(eos.guess(V, P), dtype=float)
        g[0] = p[0] * 1.01
        fixed = [0, 1, 1, 1]
    out = eos.fit(V, P, guess=g, sigmaV=sv, sigmaP=sp, order=order, linear=linear, fixed=fixed)
    return np.concatenate([out.beta, out.sd_beta, [out.res_var], out.y])


def history(case, r):
    _, name, seq = case
    eos = er.make(name)
    got = [one(eos, name, H[i]) for i in seq]
    r.steps += len(seq)
    for k, i in enumerate(seq):
        want = one(er.make(name), name, H[i])
        if not close(got[k], want, 0., 0.):
            r.fail('history:%s' % name, '%r: fit %d of the sequence gives %s, the same fit on a fresh object %s' % (case, k, got[k], want))


def energy(case, r):
    _, tag, k, kp, v0, lo, hi = case
    from quantas.qha.utils.ev_eos import EnergyEOS
    e = EnergyEOS()
    V = v0 * np.linspace(lo, hi, 8)
    E = getattr(e, tag)(V, -275., k, kp, v0)
    a, b = V.copy(), E.copy()
    with quiet():
        pars, err = e.fit(tag, V, E)
    r.steps += 1
    if not (close(pars[0], -275., 1e-9) and close(pars[1], k, 1e-4) and close(pars[2], kp, 1e-3) and close(pars[3], v0, 1e-5)):
        r.fail('energy:' + tag, '%r: E(V) fit gives %s' % (case, pars))
    if not (np.array_equal(V, a) and np.array_equal(E, b)):
        r.fail('energy-mutated:' + tag, '%r: fitting changed the data' % (case,))
