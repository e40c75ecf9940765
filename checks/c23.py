"""C23: programs shrunk at every point against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host, progs
from nkv.progs import *
from nkv.check import Check

C = Check("C23")
C.build()


def round(s):
    progs.batch(C, s, dict(mixed=80, gc=90, coro=70, strings=60, objects=60), [SHRINK, SHRGC, SERGC], host=3)
    host.check(C, "shrink", 400, 50, s)


until(C, 600, round)
host.check_all(C, "ext link acq gc shrink", 4, 2, 2)
C.finish()
