#!/usr/bin/env python3
"""check.py ID [--thorough]   decide one property on the current /repo tree"""
import importlib
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    from sa import core
    import checks
    for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
        importlib.import_module('checks.' + m)
    if len(sys.argv) < 2 or sys.argv[1] == '--list':
        for k in sorted(core.REGISTRY):
            print(k)
        return 0
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    ids = sorted(core.REGISTRY) if sys.argv[1] == 'all' else [a for a in sys.argv[1:] if not a.startswith('-')]
    rc = 0
    for i in ids:
        rc = max(rc, core.run(i, tier))
        sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
