"""C13: programs under every slicing and collection schedule against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import progs
from nkv.progs import *
from nkv.check import Check

C = Check("C13")
C.build()
until(C, 600, lambda s: progs.batch(C, s, dict(mixed=90, coro=60, gc=60, native=40, errors=40, strings=30, core=40), [PLAIN, NOGC, STEP, SLICE, GCALL, GCHOST, GCODD], host=3))
C.finish()
