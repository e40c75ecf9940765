"""C03: programs against NkLang, under several slicings"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import progs
from nkv.progs import *
from nkv.check import Check

C = Check("C03")
C.build()
until(C, 600, lambda s: progs.batch(C, s, dict(core=280, numbers=50, strings=50, objects=60, calls=60), [PLAIN, SLICE]))
C.finish()
