"""python run.py <property id> [--replay FILE] [--sub NAME]"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import common  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--selftest':
        from vt import selftest
        sys.exit(selftest.main())
    try:
        mod = importlib.import_module(f'vt.checks.{pid.lower()}')
        code = common.main(pid, mod.SUBS, mod.ASSUMPTIONS, sys.argv[2:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
