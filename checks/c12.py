"""C12: allocation failures: every request of histories of API calls refused, runs validated by NkFault"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import fault, progs
from nkv.check import Check

C = Check("C12")
C.build()
fault.base(C, C.seed, 1 if C.thorough else 4)
if C.thorough:
    fault.after(C, C.seed, 3)
    progs.until(C, 700, lambda s: (fault.after(C, s, 4, 60), fault.walk(C, s, 60, 14, 20)), 1)
else:
    fault.after(C, C.seed, 3)
    fault.walk(C, C.seed, 60, 12, 12)
C.finish()
