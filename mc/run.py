import importlib
import json
import os
import sys

from . import build, core


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    build.install()
    sys.path.insert(0, os.path.join(core.VERIF))
    try:
        # imported once, before the workers fork
        import quantas.cmdline.commands.cmd_quantas  # noqa: F401
    except Exception:
        pass                                   # the cases show it
    mod = importlib.import_module('checks.' + prop.lower())
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rec = json.load(f)
        replay = getattr(mod, 'replay', None) or mod.run_case
        res = replay(rec['case'])
        for key, msg in res.bad:
            print('%s key=%s\n  %s' % ('REPRODUCED' if key == rec['key'] else 'also', key, msg))
        return 1 if res.bad else 0
    chk = core.Check(mod, tier, seed)
    if hasattr(mod, 'explore'):
        mod.explore(chk)
    else:
        chk.enumerate(mod.cases(tier), mod.run_case)
    return chk.finish()


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('check error (no verdict)')
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
