#!/usr/bin/env python3-vt
"""Runs the check of one property:  python3-vt check.py C03 [quick|thorough]
exit 0: held on everything explored; exit 1: VIOLATION lines printed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.ctx import Ctx
from mc import checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    x = Ctx(pid, tier, seed)
    broken = False
    try:
        checks.CHECKS[pid](x)
    except Exception:
        traceback.print_exc()
        broken = True
        x.complete = False
        x.notes.append('the check itself failed: ' + traceback.format_exc().splitlines()[-1])
    rc = x.finish()
    if rc == 0 and (broken or x.states == 0):
        rc = 3
    sys.exit(rc)


if __name__ == '__main__':
    main()
