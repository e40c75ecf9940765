"""C07: collection programs against NkLang's reachability"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host, progs
from nkv.progs import *
from nkv.check import Check

C = Check("C07")
C.build()


def round(s):
    progs.batch(C, s, dict(gc=300, coro=60), [NOGC, GCALL, GCHOST, GCODD, SHRGC, SERGC], host=3)
    host.check(C, "gc", 500, 60, s)


until(C, 600, round, 2)
host.check_all(C, "ext link gset gc", 4, 2, 2)
C.finish()
