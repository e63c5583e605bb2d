#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property from /repo's source."""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=0)
    a = ap.parse_args()
    from props import REGISTRY, PARALLEL
    if not a.jobs:
        a.jobs = min(8, os.cpu_count() or 1) if a.property in PARALLEL else 1
    mod, fn = REGISTRY[a.property]
    m = importlib.import_module('props.' + mod)
    from sa.harness import Ctx
    ctx = Ctx(a.property, a.tier, a.seed, a.root)
    if a.jobs > 1:
        return ctx.parallel(getattr(m, fn), a.jobs)
    return getattr(m, fn)(ctx)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc and isinstance(rc[0], int) else 2)
