#!/usr/bin/env python3
"""Make a planted bug from a specification and try it.

    tools/plant.py SPEC.py      build seeded/<id>/ from SPEC, then try it
    tools/plant.py --try ID...  try existing planted bugs (all: no ID)

SPEC.py defines id, prop, needs, breaks, edits [(file, old, new), ...] and demo.
Trying: the patch is applied to /repo, built, the stable tests, the demo and the
property's quick check are run, and the patch is undone.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

REPO, SEEDED = '/repo', '/verif/seeded'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)

def make(spec):
    s = runpy.run_path(spec)
    d = os.path.join(SEEDED, s['id'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        for name, old, new in s['edits']:
            p = os.path.join(REPO, name)
            t = open(p, encoding='utf-8', newline='').read()
            assert t.count(old) == 1, (name, old, t.count(old))
            open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        sh('git -C /repo checkout -q -- .')
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# run in /repo after the build; 0: property holds, else: broken\n'
        'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return s['id']

def attempt(i):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(d + '/meta.json'))['property']
    pyx = '.pyx' in open(d + '/patch.diff').read()
    clean = sh('bash %s/demo.sh' % d, cwd=REPO)
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        print(i, 'DOES NOT APPLY', a.stdout); return
    try:
        b = sh('bash /opt/vp/build.sh') if pyx else None
        t = sh('bash /opt/vp/test.sh /tmp/t.json')
        res = json.load(open('/tmp/t.json'))
        demo = sh('timeout 300 bash %s/demo.sh' % d, cwd=REPO)
        c = sh('timeout 900 ./check %s' % prop, cwd='/verif')
    finally:
        sh('git -C /repo checkout -q -- .')
        if pyx:
            sh('bash /opt/vp/build.sh')
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(res.get('passed', []))
    print(i, prop, 'build', b and b.returncode, 'tests', all(x in passed for x in st),
          'demo clean/bug', clean.returncode, demo.returncode, 'check', c.returncode)
    if clean.returncode: print('   clean demo:', clean.stdout[-400:])
    if demo.returncode == 0: print('   demo passed with the bug', demo.stdout[-300:])
    if not all(x in passed for x in st): print('   tests', str(res)[:300])
    print('   ', [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:2], demo.stdout.strip().splitlines()[-1:])

if __name__ == '__main__':
    if sys.argv[1] == '--try':
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            attempt(i)
    else:
        for f in sys.argv[1:]:
            attempt(make(f))
