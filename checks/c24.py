"""C24: VMs deleted in every state: lives of NkLife, and native objects of NkHost"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host, life, progs
from nkv.check import Check

C = Check("C24")
C.build()


def round(s):
    life.check(C, "teardown", 700, 50, s)
    life.check(C, "mixed", 200, 50, s)
    host.check(C, "teardown", 500, 50, s)


progs.until(C, 600, round, 2)
life.check_all(C, "up upx part run make drop gc boom oom ser load del", 7 if C.thorough else 6, 1, 1)
life.check_all(C, "new lib libx good bad fin run hmake oom gc del adderr", 7 if C.thorough else 6, 1, 1)
host.check_all(C, "ext link setref gc gset", 4, 2, 2)
C.finish()
