"""C05: coroutine programs against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import progs
from nkv.progs import *
from nkv.check import Check

C = Check("C05")
C.build()
until(C, 600, lambda s: progs.batch(C, s, dict(coro=350, mixed=40), [PLAIN, STEP, GCALL, SHRGC, SER]))
C.finish()
