"""C19: programs and host calls across the native boundary against NkLang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import progs
from nkv.progs import *
from nkv.check import Check

C = Check("C19")
C.build()
until(C, 600, lambda s: progs.batch(C, s, dict(native=300, errors=60), [PLAIN, SLICE, GCALL, SER], host=8))
C.finish()
