"""C09: programs saved and loaded at every point against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host, progs
from nkv.progs import *
from nkv.check import Check

C = Check("C09")
C.build()


def round(s):
    progs.batch(C, s, dict(mixed=90, coro=70, gc=70, native=50, errors=50, strings=30), [SER, SER1, SERGC], host=4, units=(1, 2))
    host.check(C, "images", 400, 50, s)


until(C, 600, round, 2)
host.check_all(C, "ext link acq gset swap", 4, 2, 2)
C.finish()
