#!/opt/venv/bin/python
"""check.py ID: decide one property on /repo's current source."""
import importlib
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(6000)
sys.dont_write_bytecode = True

from sa.report import Check


def main_():
    rc = 0
    for pid in sys.argv[1:]:
        if pid.startswith('-'):
            continue
        m = importlib.import_module('checks.' + pid.lower())
        ck = Check(pid, m.EXPLANATION, getattr(m, 'ASSUMPTIONS', ()))
        ck.part('analysis', m.run, ck)
        rc = max(rc, ck.finish())
    return rc


def main():
    try:
        return main_()
    except Exception:
        # a defect of the checker, or source that cannot be read, is no verdict
        import traceback
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
