#!/usr/bin/env python3
"""./check.py <property id>: run the check of one property against /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':     # the order of sets decides which scripts are drawn
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    pid = sys.argv[1]
    m = importlib.import_module('checks.' + pid.lower())
    sys.stdout.flush()
    rc = m.main()
    sys.stdout.flush()
    os._exit(rc)
