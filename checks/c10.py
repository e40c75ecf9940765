"""C10: damaged images and other registrations against NkImage"""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import idioms, image, life, progs
from nkv.progs import *
from nkv.check import Check

C = Check("C10")
C.build()
rng = random.Random("C10/%d" % C.seed)
srcs = [image.script(""), life.ONE] + [idioms.make(rng, p, 3, 1, p == "errors").units[0][1] for p in ("coro", "mixed", "errors")]
image.check(C, C.seed, srcs, [rng.randrange(60, 160), rng.randrange(20, 300)] + [rng.randrange(20, 200) for _ in range(3)],
            2, 3 if C.thorough else 2, 1 if C.thorough else 2)
# registrations in another order and further functions, at every save of a predicted program
OTHER = [sched("reloaded with '%s'" % o, slice=3, ser=2, pre=["swaplib 0 " + o]) for o in ("r", "x", "rx")]


def round(s):
    progs.batch(C, s, dict(mixed=40, native=40, gc=20), OTHER, host=3)


until(C, 600, round, 1)
life.check(C, "images", 300, 50, C.seed)
C.finish()
