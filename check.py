#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: static decision of one property on /repo's current tree.
Exit 0: held on everything analysed. Exit 1 + VIOLATION line: violated. Exit 2: analysis broken."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, os.path.join(HERE, 'sa', 'checks'))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from prog import Prog, AnalysisError
    from rule import Rule
    try:
        mod = importlib.import_module(pid.lower())
        prog = Prog()
        r = Rule(pid, tier, prog)
        r.text = mod.__doc__ or ''
        mod.run(r)
        return r.finish(mod.LEVEL, mod.EXPLANATION)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN: %s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN: %s' % pid)
        return 2


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
