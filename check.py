#!/usr/bin/env python3
"""python3 check.py <property id> [--thorough]: decides one property on /repo's current source."""
import importlib, sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pa import build, report
from pa.registry import CHECKS


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    prop = args[0]
    mod, fn = CHECKS[prop]
    deep = '--thorough' in sys.argv
    m = importlib.import_module('pa.checks.' + mod)
    dump, graph = build.dump()
    r = getattr(m, fn)(dump, graph, deep)
    return r.finish()


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    def body():
        try:
            res.append(main())
        except BaseException:
            traceback.print_exc()
            res.append(3)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if isinstance(res[0], int) else 3)
