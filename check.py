#!/usr/bin/env python3-vt
"""Run one check:  check.py <property id> [quick|thorough]"""
import ctypes
import importlib
import os
import sys
import threading

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.dont_write_bytecode = True


def main():
    from chk import Check
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(pid.lower())
    c = Check(pid, tier, getattr(mod, 'LEVEL', 'other'), mod.RULE)
    c.assume = list(getattr(mod, 'ASSUME', []))
    cur[0] = c
    try:
        mod.run(c)
    except Deadline:
        c.undecided('time budget', 'the obligations not listed were not reached within %d s' % LIMIT)
    done[0] = True
    return c.finish()


rc = [3]
cur, done = [None], [False]
LIMIT = int(os.environ.get('VERIF_LIMIT') or (600 if 'thorough' not in sys.argv else 7200))


class Deadline(BaseException):
    pass


def body():
    rc[0] = main()


if __name__ == '__main__':
    # deep value graphs need a deep stack
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join(LIMIT)
    while t.is_alive():
        if not done[0]:
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Deadline))
        t.join(20)
    sys.stdout.flush()
    os._exit(rc[0])
