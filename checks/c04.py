"""C04: call-heavy programs against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import progs
from nkv.progs import *
from nkv.check import Check

C = Check("C04")
C.build()
until(C, 600, lambda s: progs.batch(C, s, dict(calls=240, native=100, objects=60), [PLAIN, SLICE, GCALL], host=4))
C.finish()
