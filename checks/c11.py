"""C11: memory accounting and limits: traces of the real allocator against NkMem"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import mem, progs
from nkv.check import Check

C = Check("C11")
C.build()
mem.machine(C)
mem.default_vm(C)
progs.until(C, 600, lambda s: mem.check(C, s, 60, 9), 1)
C.finish()
