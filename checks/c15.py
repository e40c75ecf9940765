"""C15: programs, sources and objects at their limits against NkLimits, NkNest and NkHost"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import host, limits
from nkv.progs import until
from nkv.check import Check

C = Check("C15")
C.build()
until(C, 600, lambda s: (limits.batch(C, s, 130), limits.fields(C, s, 90), limits.nests(C, s, 80), host.check(C, "limits", 90, 36, s)), rounds=2)
host.check_all(C, "obj fset limf size fclr", 5 if C.thorough else 4, 1, 1)
C.finish()
