"""C18: several VMs in one process: lives of NkLife, and programs run interleaved"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import life, progs
from nkv.check import Check

C = Check("C18")
C.build()


def round(s):
    life.check(C, "many", 400, 60, s)
    life.check(C, "mixed", 400, 60, s)
    progs.interleave(C, s, dict(mixed=90, coro=30, gc=40, errors=20, strings=20))


progs.until(C, 600, round, 2)
life.check_all(C, "up run make drop gc ser del", 6, 2, 1)
C.finish()
