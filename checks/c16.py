"""C16: failing programs against NkLang: what, where and nothing afterwards"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import progs
from nkv.progs import *
from nkv.check import Check

C = Check("C16")
C.build()
until(C, 600, lambda s: progs.batch(C, s, dict(errors=330, native=60), [PLAIN, SLICE, GCALL, SER], host=4, units=(1, 2, 3)))
C.finish()
