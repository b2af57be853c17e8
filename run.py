#!/usr/bin/env python3
"""run.py <property id> : decide one property on the current tree of /repo"""
import os, sys, importlib, traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))


def main():
    if len(sys.argv) < 2:
        print('usage: run.py P01')
        return 2
    rc = 0
    for p in sys.argv[1:]:
        mod = importlib.import_module(p.lower())
        try:
            r = mod.run()
        except Exception:
            traceback.print_exc()
            r = 2
        rc = rc or r
    return rc


sys.exit(main())
