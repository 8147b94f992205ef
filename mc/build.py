"""Builds the Cython extensions of /repo's *current working tree* outside /repo
and makes them importable under their real module names.

The .pyx files are copied into a cache directory keyed by their content, so a
changed kernel is always recompiled and an unchanged one is compiled once per
sandbox.  Nothing is written under /repo or /opt/vp."""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('QUANTAS_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')


def find_pyx():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'quantas')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.pyx'):
                p = os.path.join(root, f)
                mod = os.path.relpath(p, REPO)[:-4].replace(os.sep, '.')
                out.append((mod, p))
    return out


def cache_root():
    for base in (os.path.join(VERIF, '.build'), os.path.join(tempfile.gettempdir(), 'quantas-mc-build')):
        try:
            os.makedirs(base, exist_ok=True)
            t = tempfile.NamedTemporaryFile(dir=base)
            t.close()
            return base
        except OSError:
            continue
    return tempfile.mkdtemp()


def cythonize(mod, pyx, dest):
    """pyx -> C, in dest (keeps the package layout so that the C module name is right)."""
    parts = mod.split('.')
    d = os.path.join(dest, *parts[:-1])
    os.makedirs(d, exist_ok=True)
    p = dest
    for part in parts[:-1]:
        p = os.path.join(p, part)
        open(os.path.join(p, '__init__.py'), 'w').close()
    # .pxd files may lie beside the module
    for f in os.listdir(os.path.dirname(pyx)):
        if f.endswith('.pxd') or f.endswith('.pxi'):
            shutil.copy(os.path.join(os.path.dirname(pyx), f), d)
    src = os.path.join(d, parts[-1] + '.pyx')
    shutil.copy(pyx, src)
    return src


def build(extra_tag='', openmp=True):
    """Returns {module: path of .so}."""
    pyx = find_pyx()
    h = hashlib.sha256()
    for mod, p in pyx:
        h.update(mod.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    for root, dirs, files in os.walk(os.path.join(REPO, 'quantas')):
        for f in sorted(files):
            if f.endswith(('.pxd', '.pxi')):
                with open(os.path.join(root, f), 'rb') as g:
                    h.update(g.read())
    h.update(('%s|%s|%s' % (sys.version, extra_tag, openmp)).encode())
    key = h.hexdigest()[:24]
    base = os.path.join(cache_root(), key)
    want = {mod: os.path.join(base, mod + SUFFIX) for mod, _ in pyx}
    if os.path.exists(os.path.join(base, 'ok')):
        return want
    tmp = base + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    import numpy
    inc = ['-I' + sysconfig.get_path('include'), '-I' + numpy.get_include()]
    procs = []
    for mod, p in pyx:
        src = cythonize(mod, p, os.path.join(tmp, 'src'))
        c = src[:-4] + '.c'
        so = os.path.join(tmp, mod + SUFFIX)
        cmd = '%s -m cython %s -o %s && ' % (sys.executable, src, c)
        cmd += 'gcc -shared -fPIC -fwrapv -O2 -Wno-cpp %s %s %s -o %s -lm' % (
            '-fopenmp' if openmp else '', ' '.join(inc), c, so)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        procs.append((mod, subprocess.Popen(['bash', '-c', cmd], cwd=os.path.join(tmp, 'src'), env=env,
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = []
    for mod, pr in procs:
        out = pr.communicate()[0]
        if pr.returncode:
            bad.append('%s: %s' % (mod, out.decode(errors='replace')[-2000:]))
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError('building the extensions failed:\n' + '\n'.join(bad))
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, base)
    except OSError:
        if not os.path.exists(os.path.join(base, 'ok')):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return want


class _Finder(object):
    """Maps the extension modules to the fresh builds; everything else of
    quantas comes from /repo."""

    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install(table=None):
    if table is None:
        table = build()
    sys.meta_path.insert(0, _Finder(table))
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    return table


if __name__ == '__main__':
    print(build())
