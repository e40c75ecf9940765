"""C21: globals shared by several scripts and the host against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host, progs, repl
from nkv.progs import *
from nkv.check import Check

C = Check("C21")
C.build()


def round(s):
    progs.batch(C, s, dict(core=80, mixed=80, native=40, objects=40), [PLAIN, GCALL, SER], host=12, units=(2, 3), size=7)
    repl.batch(C, s, 60, between=0.6)
    host.check(C, "globals", 300, 50, s)


until(C, 600, round, 2)
host.check_all(C, "ext gset gget gc", 4, 2, 2)
C.finish()
