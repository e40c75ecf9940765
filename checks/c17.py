"""C17: interactive sessions with failing inputs against NkRepl"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import repl
from nkv.progs import until
from nkv.check import Check

C = Check("C17")
C.build(interp=True)
until(C, 600, lambda s: (repl.batch(C, s, 140), repl.interpreter(C, C.bins["ninkasi"], s, 40)))
C.finish()
