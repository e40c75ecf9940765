"""C08: handle histories of NkHost, long random ones and every short one"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host
from nkv.progs import until
from nkv.check import Check

C = Check("C08")
C.build()
host.check_all(C, "ext acq rel xrel gc", 6, 2, 2)
host.check_all(C, "ext acq rel", 8 if C.thorough else 6, 3, 3)
until(C, 600, lambda s: host.check(C, "handles", 1200, 60, s))
C.finish()
