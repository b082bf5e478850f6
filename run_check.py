#!/usr/bin/env python3-vt
"""run_check.py <property id>: decide one property on the current /repo tree"""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'props'))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    chk = mod.check(os.environ.get('VERIF_TIER', 'quick'))
    rc = chk.run()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
