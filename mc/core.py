"""Bounded-exhaustive exploration harness.

A check module defines

    PROPERTY   id
    RULE       how cases are made and what makes one non-trivial
    cases(tier)      -> iterable of JSON-able cases: the *whole* bounded space
    run_case(case)   -> Result, from the real code (executed in /repo's tree)
    explore(chk)     optional: replaces the plain enumeration (state search)

Every case is a list/dict that replays on its own: `./check ID --replay FILE`."""
import collections
import contextlib
import hashlib
import io
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result(object):
    """What one execution of the real code showed.

    bad    list of (key, message): violations; key identifies the specific
           input / call site so that a listed finding matches nothing else
    states iterable of hashable observations (abstract states reached)
    steps  number of transitions (operations of the real code) executed
    """
    __slots__ = ('bad', 'states', 'steps', 'traces')

    def __init__(self, bad=None, states=(), steps=0, traces=1):
        self.bad = bad or []
        self.states = list(states)
        self.steps = steps
        self.traces = traces

    def fail(self, key, msg):
        self.bad.append((key, msg))

    def see(self, *obs):
        self.states.append(digest(obs))


def digest(obj):
    return hashlib.md5(repr(obj).encode()).hexdigest()[:16]


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('no answer within the horizon')


@contextlib.contextmanager
def horizon(seconds):
    """Bounds one execution of the real code (liveness horizon)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def isolated(fn, *args, **kw):
    """Runs fn in a forked child (class-level state of the code under test
    cannot leak between executions) and returns its result."""
    limit = kw.pop('_limit', 300)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(int(limit))
            try:
                out = ('ok', fn(*args, **kw))
            except BaseException:
                out = ('err', traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('isolated execution died (status %d)' % status)
    kind, val = pickle.loads(data)
    if kind == 'err':
        raise RuntimeError('harness error in isolated execution:\n' + val)
    return val


class Died(object):
    """A worker that crashed or did not answer while executing a case."""

    def __init__(self, why):
        self.why = why


CASE_LIMIT = 240


def _spawn(fn, items, idxs, close_fds):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 1)               # libraries print there
            os.dup2(n, 2)
            for q in close_fds:
                try:
                    os.close(q)
                except OSError:
                    pass
            with os.fdopen(w, 'wb') as f:
                for i in idxs:
                    try:
                        out = ('ok', fn(items[i]))
                    except BaseException as e:
                        out = ('err', (type(e).__name__, traceback.format_exc()))
                    d = pickle.dumps(out)
                    f.write(struct.pack('<Q', len(d)))
                    f.write(d)
                    f.flush()
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def _readn(fd, n, limit):
    out = b''
    end = time.time() + limit
    while len(out) < n:
        left = end - time.time()
        if left <= 0:
            return None
        rd, _, _ = select.select([fd], [], [], left)
        if not rd:
            return None
        d = os.read(fd, min(1 << 20, n - len(out)))
        if not d:
            return b''
        out += d
    return out


def pmap(fn, items, workers=None, limit=CASE_LIMIT):
    """Forked parallel map, order preserving.  An execution that raises, kills
    its process or gives no answer within the horizon becomes a Result with a
    violation: on the unchanged tree none does."""
    items = list(items)
    n = len(items)
    workers = min(workers or min(8, os.cpu_count() or 1), n)
    if n == 0:
        return
    sys.stdout.flush()
    sys.stderr.flush()
    slots = []
    for k in range(workers):
        slots.append(_spawn(fn, items, range(k, n, workers), [s[1] for s in slots]))
    deaths = 0
    try:
        for i in range(n):
            k = i % workers
            pid, fd = slots[k]
            head = _readn(fd, 8, limit)
            body = _readn(fd, struct.unpack('<Q', head)[0], limit) if head else head
            if body:
                kind, val = pickle.loads(body)
                if kind == 'err':
                    res = Result(steps=1)
                    res.fail('raised:%s:%s' % (val[0], digest(items[i])), 'case %r\n%s' % (items[i], val[1]))
                    val = res
                yield val
                continue
            why = 'no answer within %d s' % limit if body is None else 'the process died'
            os.kill(pid, signal.SIGKILL)
            os.close(fd)
            os.waitpid(pid, 0)
            deaths += 1
            rest = range(i + workers, n, workers) if deaths < 4 else []
            slots[k] = _spawn(fn, items, rest, [s[1] for j, s in enumerate(slots) if j != k])
            res = Result(steps=1)
            res.fail('died:%s' % digest(items[i]), 'case %r: %s' % (items[i], why))
            yield res
            if deaths >= 4:
                return
    finally:
        for pid, fd in slots:
            try:
                os.close(fd)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)


# --------------------------------------------------------------------------
def known_findings(prop):
    """{key: description} of the findings listed for this property."""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            toks = line[len('finding:'):].split(None, 2)
            if len(toks) < 3 or toks[0] != 'property=' + prop:
                continue
            if toks[1].startswith('key='):
                out[toks[1][4:]] = toks[2]
    return out


class Check(object):
    def __init__(self, module, tier, seed):
        self.m = module
        self.prop = module.PROPERTY
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.samples = []
        self.found = collections.OrderedDict()   # key -> (case, msg, count)
        self.extra = {}

    def add(self, case, res):
        self.executions += 1
        self.transitions += res.steps
        self.traces += res.traces
        for s in res.states:
            self.states.add(s)
        if len(self.samples) < 4 or (self.executions in (50, 500, 5000)):
            if len(self.samples) < 8:
                self.samples.append(case)
        for key, msg in res.bad:
            if key in self.found:
                c, m, n = self.found[key]
                self.found[key] = (c, m, n + 1)
            else:
                self.found[key] = (case, msg, 1)

    def enumerate(self, cases, run_case, workers=None):
        cases = list(cases)
        for case, res in zip(cases, pmap(run_case, cases, workers)):
            self.add(case, res)

    def finish(self):
        known = known_findings(self.prop)
        reported = 0
        replays = os.path.join(VERIF, 'replays')
        os.makedirs(replays, exist_ok=True)
        for k, (case, msg, n) in self.found.items():
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]))
        for k, (case, msg, n) in self.found.items():
            if k in known:
                continue
            reported += 1
            if reported > 20:
                continue
            path = os.path.join(replays, '%s-%s.json' % (self.prop, digest(k)))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': k, 'case': case, 'message': msg,
                           'occurrences': n,
                           'replay': './check %s --replay %s' % (self.prop, path)}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  key=%s (%d occurrence(s))' % (k, n))
            print('  ' + str(msg).replace('\n', '\n  ')[:1500])
        wall = time.time() - self.t0
        cov = {
            'states': len(self.states),
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'executions': self.executions,
            'samples': self.samples,
            'rule': getattr(self.m, 'RULE', ''),
            'exhaustive': True,
        }
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': getattr(self.m, 'LEVEL', 'model_checking'), 'coverage': cov,
              'assumptions': getattr(self.m, 'ASSUMPTIONS', []),
              'wall_s': round(wall, 2), 'violations': reported}
        if ev['level'] == 'fault_enumeration':
            cov['evaluations'] = self.executions
            cov['distinct_nontrivial'] = len(self.states)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.prop + '.json'))
        print('%s: %d executions, %d states, %d transitions, %d violation(s), %.1f s [%s]' % (
            self.prop, self.executions, len(self.states), self.transitions, reported, wall, self.tier))
        return 1 if reported else 0


@contextlib.contextmanager
def scratch():
    """A private directory, removed afterwards; the process is inside it."""
    d = tempfile.mkdtemp(prefix='qmc-')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def close(a, b, rtol=1e-9, atol=0.0):
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
        same = (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok | same))
