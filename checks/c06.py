"""C06: object programs against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host, progs
from nkv.progs import *
from nkv.check import Check

C = Check("C06")
C.build()


def round(s):
    progs.batch(C, s, dict(objects=300), [PLAIN, GCODD, SER], host=3)
    host.check(C, "fields", 400, 60, s)


until(C, 600, round)
host.check_all(C, "obj fset fget size fclr", 4, 1, 1)
C.finish()
