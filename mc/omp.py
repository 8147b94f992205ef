"""Stateless model checking of the OpenMP kernels.

Every .pyx of /repo is compiled with -fopenmp -fsanitize=thread and linked with
shim.c in place of libgomp and libtsan: the threads of each parallel region
become coroutines of one thread, every access to memory inside the region calls
the shim, and the order of the coroutines is decided here.  A schedule is the
list of decisions taken; all of them are enumerated depth first (free choice
whenever a thread ends or blocks, at most `bound` preemptions of a thread that
could go on), with preemption points at the sites that access a location other
threads access too, one of them writing.  Accesses no other thread conflicts
with commute, so that points there would only repeat equivalent executions."""
import ctypes
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

from . import build as B

SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.c')
MAXD = 1 << 16


def build():
    """{module: instrumented .so}"""
    import hashlib
    h = hashlib.sha256(open(SHIM, 'rb').read() + open(os.path.join(os.path.dirname(SHIM), 'omp.py'), 'rb').read())
    pyx = B.find_pyx()
    for mod, p in pyx:
        h.update(mod.encode() + open(p, 'rb').read())
        for f in sorted(os.listdir(os.path.dirname(p))):
            if f.endswith(('.pxd', '.pxi')):
                h.update(open(os.path.join(os.path.dirname(p), f), 'rb').read())
    h.update(sys.version.encode())
    base = os.path.join(B.cache_root(), 'mc-' + h.hexdigest()[:24])
    want = {mod: os.path.join(base, mod + B.SUFFIX) for mod, _ in pyx}
    if os.path.exists(os.path.join(base, 'ok')):
        return want
    tmp = base + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    import numpy
    inc = ['-I' + sysconfig.get_path('include'), '-I' + numpy.get_include()]
    procs = []
    for mod, p in pyx:
        src = B.cythonize(mod, p, os.path.join(tmp, 'src'))
        c = src[:-4] + '.c'
        o = src[:-4]
        cmd = ' && '.join(['%s -m cython %s -o %s' % (sys.executable, src, c),
                           'gcc -fPIC -fwrapv -O0 -Wno-cpp -fopenmp -fsanitize=thread --param tsan-instrument-func-entry-exit=0 '
                           '%s -c %s -o %s.o' % (' '.join(inc), c, o),
                           'gcc -fPIC -O2 -w -c %s -o %s.shim.o' % (SHIM, o),
                           'gcc -shared -Wl,-Bsymbolic %s.o %s.shim.o -o %s -lm' % (o, o, os.path.join(tmp, mod + B.SUFFIX))])
        procs.append((mod, subprocess.Popen(['bash', '-c', cmd], cwd=os.path.join(tmp, 'src'), env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'),
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = []
    for mod, pr in procs:
        out = pr.communicate()[0]
        if pr.returncode:
            bad.append('%s: %s' % (mod, out.decode(errors='replace')[-2000:]))
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError('building the instrumented kernels failed:\n' + '\n'.join(bad))
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, base)
    except OSError:
        if not os.path.exists(os.path.join(base, 'ok')):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return want


def undefined(so):
    """OpenMP or tsan entry points the shim does not model"""
    out = subprocess.run(['nm', '-D', '--undefined-only', so], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    return [t for t in out.split() if t.startswith(('GOMP_', 'omp_', '__tsan_', 'GOACC', '__kmpc'))]


def load(so, mod):
    """a second copy of an extension module, beside the imported one"""
    loader = importlib.machinery.ExtensionFileLoader(mod, so)
    spec = importlib.util.spec_from_file_location(mod, so, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    return m


class Scheduler(object):
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        self.lib.mc_begin.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.c_int]
        self.o, self.c, self.k = (ctypes.c_int * MAXD)(), (ctypes.c_int * MAXD)(), (ctypes.c_int * MAXD)()
        self.st = (ctypes.c_long * 8)()

    def run(self, call, threads, prefix):
        p = (ctypes.c_int * max(1, len(prefix)))(*prefix)
        self.lib.mc_begin(threads, p, len(prefix))
        out = call()
        n = self.lib.mc_end(self.o, self.c, self.k, self.st)
        return out, list(zip(self.o[:n], self.c[:n], self.k[:n])), dict(zip(('access', 'regions', 'points', 'conflicts', 'bad', 'deadlock', 'sites', 'epochs'), self.st))

    def explore(self, call, threads, bound, verdict, cap=20000, reduce=False):
        """all schedules (reduce: one order of the threads where nothing conflicts); verdict(out, stats) -> message or None, stops at the first message.
        Returns (schedules, steps, sites, regions, complete, (prefix, message))"""
        self.lib.mc_reset_sites(int(reduce))
        total = steps = 0
        while True:
            prefix, n, last = [], 0, None
            new = False
            while True:
                out, trace, st = self.run(call, threads, prefix)
                n += 1
                total += 1
                steps += st['access'] + len(trace)
                last = st
                if st['bad']:
                    return total, steps, st['sites'], st['regions'], False, None
                msg = verdict(out, st)
                if msg:
                    return total, steps, st['sites'], st['regions'], True, ([t[1] for t in trace], msg)
                if self.lib.mc_adopt():
                    new = True
                    break
                used, nxt = [0], None
                for o, c, k in trace:
                    used.append(used[-1] + (1 if k and c else 0))
                for i in range(len(trace) - 1, -1, -1):
                    o, c, k = trace[i]
                    if c + 1 < o and (not k or c or used[i] + 1 <= bound):
                        nxt = [t[1] for t in trace[:i]] + [c + 1]
                        break
                if nxt is None:
                    return total, steps, st['sites'], st['regions'], True, None
                if n >= cap:
                    return total, steps, st['sites'], st['regions'], False, None
                prefix = nxt
            assert new
