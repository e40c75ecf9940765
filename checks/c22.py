"""C22: string programs against NkLang under collection, shrinking and saving"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import progs
from nkv.progs import *
from nkv.check import Check

C = Check("C22")
C.build()
until(C, 600, lambda s: progs.batch(C, s, dict(strings=300), [PLAIN, GCALL, GCHOST, SHRGC, SER], host=4))
C.finish()
