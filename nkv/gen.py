"""Random programs: the source text and the syntax table NkLang.tla runs.

A program is made of units (compiled scripts) and host steps.  Every statement
header is on one line of its own, so an error has one right position."""
from .values import V, quote, dec

OPS_ARITH = ["+", "-", "*", "/", "%"]
OPS_CMP = ["==", "!=", "<", ">", "<=", ">=", "==="]
PREC = {"*": 5, "/": 5, "%": 5, "+": 6, "-": 6, "<": 8, ">": 8, "<=": 8, ">=": 8,
        "==": 9, "!=": 9, "===": 9, "&&": 13, "||": 14}

PROFILES = {
    "core": dict(),
    "calls": dict(fn=3, anon=3, rec=3, objs=1.2),
    "coro": dict(coro=6, fn=1.5, objs=0.7, gc=0.3),
    "objects": dict(objs=5, native=1, fn=0.7),
    "gc": dict(objs=4, native=5, gc=4, coro=1.5, strs=2),
    "strings": dict(strs=6, floats=1),
    "numbers": dict(floats=4, strs=0.3, objs=0.3),
    "errors": dict(chaos=0.06, coro=1.5, native=1.5, anon=1.5),
    "native": dict(native=5, cb=5, chaos=0.015),
    "mixed": dict(coro=2, native=2, cb=2, gc=1, chaos=0.004),
}


class E:
    __slots__ = ("n", "t", "p")

    def __init__(self, n, t, p=0):
        self.n, self.t, self.p = n, t, p


class Fn:
    def __init__(self, name, params, ret, yields=False, rec=False):
        self.name, self.params, self.ret, self.yields, self.rec = name, params, ret, yields, rec


class Gen:
    def __init__(self, rng, profile="mixed", size=14, fname="t.nks"):
        self.r = rng
        w = dict(core=1, fn=1, anon=1, rec=1, objs=1, strs=1, floats=0.6, coro=0, native=0.4, cb=0.3, gc=0, chaos=0.0)
        w.update(PROFILES[profile])
        self.w = w
        self.size = size
        self.fname = fname
        self.nodes, self.fns, self.units = [], [], []
        self.lines = []
        self.inline = None
        self.scopes = [{}]         # name -> type ; scopes[0] are the globals
        self.depth = 0             # statement nesting
        self.infn = None           # Fn being generated
        self.incoro = False        # code here may yield
        self.loops = 0
        self.uid = 0
        self.funcs = []            # callable global functions
        self.cofuncs = []          # coroutine bodies
        self.host = []
        self.budget = 0

    # -- tables
    def add(self, k, **kw):
        n = dict(k=k, a=0, b=0, c=0, d=0, l=[], s="", v=V("n"), at=self.at())
        n.update(kw)
        self.nodes.append(n)
        return len(self.nodes)

    def at(self):
        return self._at

    def has(self, n, k):
        """Whether node n contains a node of kind k (not looking into functions)."""
        if not n:
            return False
        x = self.nodes[n - 1]
        return x["k"] == k or any(self.has(c, k) for c in [x["a"], x["b"], x["c"], x["d"]] + x["l"])

    def here(self):
        """The next emitted line is the current position."""
        if self.inline is None:
            self._at = "%s:%d" % (self.fname, len(self.lines) + 1)

    def emit(self, text):
        if self.inline is not None:
            self.inline.append(text)
        else:
            self.lines.append("    " * min(self.depth, 6) + text)

    def name(self, base):
        self.uid += 1
        return "%s%d" % (base, self.uid)

    # -- random helpers
    def chance(self, p):
        return self.r.random() < p

    def pick(self, opts):
        """opts: list of (weight, thing)."""
        opts = [(w, t) for w, t in opts if w > 0]
        x = self.r.random() * sum(w for w, _ in opts)
        for w, t in opts:
            x -= w
            if x <= 0:
                return t
        return opts[-1][1]

    def visible(self):
        """name -> type as the compiler resolves it here."""
        out = dict(self.scopes[0])
        for s in self.scopes[1:]:
            out.update(s)
        return out

    def vars_of(self, t):
        return sorted(n for n, ty in self.visible().items() if ty == t)

    # -- expressions
    def par(self, e, maxp):
        if e.p > maxp or self.chance(0.06):
            return "(" + e.t + ")"
        return e.t

    def lit(self, v, text, p=0):
        return E(self.add("lit", v=v), text, p)

    def ilit(self, x):
        if x < 0:
            return E(self.add("un", s="-", a=self.add("lit", v=V("i", -x))), "-%d" % -x, 1)
        return self.lit(V("i", x), str(x))

    def int_(self, d):
        r = self.r
        if d <= 0 or self.chance(0.25):
            vs = self.vars_of("i")
            if vs and self.chance(0.65):
                return self.var(r.choice(vs))
            return self.ilit(self.pick([(6, r.randrange(0, 10)), (2, r.randrange(-20, 200)), (0.5, 2147483647),
                                        (0.5, r.randrange(-100000, 100000))]))
        k = self.pick([(5, "bin"), (2, "cmp"), (1, "log"), (1.2, "un"), (1.2, "inc"), (1, "asg"),
                       (1.5 * self.w["fn"], "call"), (1 * self.w["objs"], "len"), (1.5 * self.w["objs"], "fld"),
                       (0.5 * self.w["native"], "nat"), (0.6 * self.w["anon"], "anon"),
                       (1.5 * self.w["coro"], "res"), (0.5 * self.w["coro"], "fin"), (2 * self.w["coro"], "yld"),
                       (0.6 * self.w["cb"], "cb"), (0.4 * self.w["objs"], "self"), (0.4 * self.w["strs"], "scmp")])
        if k == "bin":
            op = self.pick([(4, "+"), (4, "-"), (2, "*"), (1, "/"), (1, "%")])
            b = self.int_(d - 1)
            a = self.int_(d - 1) if op in "+-*" or self.chance(0.1) else None
            if a is None:
                # keep divisors nonzero most of the time
                a, b = b, self.ilit(r.choice([1, 2, 3, 5, 7, -3]))
            else:
                a, b = b, a
            return self.bin(op, a, b)
        if k == "cmp":
            t = self.pick([(4, "i"), (self.w["floats"], "f"), (self.w["strs"], "s")])
            a = self.expr(t, d - 1)
            op = r.choice(OPS_CMP)
            b = self.expr(t if self.chance(0.8) else "i", d - 1)
            return self.bin(op, a, b)
        if k == "log":
            return self.bin(r.choice(["&&", "||"]), self.int_(d - 1), self.int_(d - 1))
        if k == "un":
            return self.un(r.choice(["-", "!"]), self.int_(d - 1))
        if k == "inc":
            vs = self.assignable("i")
            if self.chance(0.985 - self.w['chaos']):
                if not vs:
                    return self.int_(d - 1)
                lv = self.var(r.choice(vs))
            else:
                lv = self.field("i", d - 1)
                if lv is not None and self.has(lv.n, "inc"):
                    # the compiler does not take ++ inside the operand of ++
                    lv = self.field("i", 0)
                if lv is None:
                    return self.int_(d - 1)
            return self.inc(lv)
        if k == "asg":
            vs = self.assignable("i")
            if vs:
                x = r.choice(vs)
                e = self.int_(d - 1)
                return self.assign(x, e)
            return self.int_(d - 1)
        if k == "call":
            return self.call("i", d) or self.int_(d - 1)
        if k == "len":
            o = self.obj_(d - 1)
            return E(self.add("len", a=o.n), "len(%s)" % o.t)
        if k == "fld":
            f = self.field("i", d - 1)
            if f is None:
                return self.int_(d - 1)
            return self.bin(r.choice("+-"), self.int_(0), f)
        if k == "nat":
            q = r.choice(["ii", "bump", "z", "hcount", "is", "tag", "count", "chk"])
            if q == "ii":
                return self.native("ii", [self.int_(d - 1), self.int_(d - 1)])
            if q == "hcount":
                return self.native("hcount", [self.obj_(0)])
            if q == "tag":
                o = self.vars_of("x")
                if o:
                    return self.native("tag", [self.var(r.choice(o))])
            if q == "count":
                return self.native("count", [self.int_(d - 1) for _ in range(2 if not self.chance(self.w["chaos"] * 3) else 1)])
            if q == "chk":
                return self.native("chk", [self.int_(d - 1), self.str_(0)])
            return self.native("bump", [])
        if k == "anon":
            return self.anon_call(d)
        if k == "res":
            return self.resume(d) or self.int_(d - 1)
        if k == "fin":
            vs = self.vars_of("c")
            if vs:
                c = self.var(r.choice(vs))
                return E(self.add("fin", a=c.n), "is_finished(%s)" % c.t)
            return self.int_(d - 1)
        if k == "yld":
            if self.incoro:
                return self.bin("+", self.int_(0), self.yield_(d - 1))
            return self.int_(d - 1)
        if k == "cb":
            return self.callback(d)
        if k == "self":
            vs = self.vars_of("m")
            if vs:
                return self.method(self.var(r.choice(vs)), d)
            return self.int_(d - 1)
        if k == "scmp":
            return self.bin(r.choice(["==", "<", ">=", "!="]), self.str_(d - 1), self.str_(0))
        raise AssertionError(k)

    def float_(self, d):
        r = self.r
        if d <= 0 or self.chance(0.35):
            vs = self.vars_of("f")
            if vs and self.chance(0.5):
                return self.var(r.choice(vs))
            v = V("f", r.randrange(0, 200), 0)
            e = r.randrange(0, 4)
            i = v["i"]
            while e > 0 and i % 2 == 0:
                i //= 2
                e -= 1
            v = V("f", i, e if i else 0)
            return self.lit(v, dec(v))
        k = self.pick([(4, "bin"), (1, "un"), (1, "mix"), (0.7, "inc"), (0.5, "fl"), (0.5, "asg")])
        if k == "bin":
            return self.bin(self.pick([(4, "+"), (4, "-"), (1, "*"), (0.2, "/")]), self.float_(d - 1), self.float_(d - 1))
        if k == "un":
            return self.un("-", self.float_(d - 1))
        if k == "mix":
            return self.bin(r.choice("+-*"), self.float_(d - 1), self.int_(0))
        if k == "inc":
            vs = self.assignable("f")
            if vs:
                return self.inc(self.var(r.choice(vs)))
            return self.float_(d - 1)
        if k == "asg":
            vs = self.assignable("f")
            if vs:
                return self.assign(r.choice(vs), self.float_(d - 1))
            return self.float_(d - 1)
        return self.native("fl", [self.float_(d - 1)])

    def text(self):
        r = self.r
        return "".join(r.choice("abcXYZ019 .-_") for _ in range(r.randrange(0, 6)))

    def str_(self, d):
        r = self.r
        if d <= 0 or self.chance(0.35):
            vs = self.vars_of("s")
            if vs and self.chance(0.5):
                return self.var(r.choice(vs))
            s = self.text()
            if self.chance(0.15):
                s += r.choice(["\n", "\t", '"', "\r"])
            if self.chance(0.12):     # adjacent literals are one
                t = self.text()
                return self.lit(V("s", s=s + t), quote(s) + " " + quote(t))
            return self.lit(V("s", s=s), quote(s))
        k = self.pick([(5, "cat"), (1, "is"), (1, "call"), (0.7, "asg"), (0.8 * self.w["objs"], "fld")])
        if k == "cat":
            t = self.pick([(3, "s"), (2, "i"), (self.w["floats"] * 0.5, "f"), (0.3, "n")])
            return self.bin("+", self.str_(d - 1), self.expr(t, d - 1))
        if k == "is":
            return self.native("is", [self.int_(d - 1), self.str_(d - 1)])
        if k == "call":
            return self.call("s", d) or self.str_(d - 1)
        if k == "asg":
            vs = self.assignable("s")
            if vs:
                return self.assign(r.choice(vs), self.str_(d - 1))
            return self.str_(d - 1)
        f = self.field("s", d - 1)
        return self.bin("+", self.str_(0), f) if f else self.str_(d - 1)

    def obj_(self, d):
        r = self.r
        vs = self.vars_of("o") + self.vars_of("x") * 1
        if vs and (d <= 0 or self.chance(0.6)):
            return self.var(r.choice(vs))
        k = self.pick([(3, "new"), (1.2 * self.w["native"], "mk"), (1, "call"), (0.6 * self.w["native"], "ob"),
                       (0.4 * self.w["native"], "hold")])
        if d > 0 and k == "call":
            c = self.call("o", d)
            if c:
                return c
        if d > 0 and k == "ob":
            return self.native("ob", [self.obj_(d - 1)])
        if k == "mk":
            return self.native("mk", [])
        if d > 0 and k == "hold" and self.w["gc"]:
            return self.native("hold", [self.obj_(d - 1)])
        return E(self.add("new"), "object()") if self.chance(0.85) or True else None

    def nil_(self, d):
        return self.lit(V("n"), "nil")

    def expr(self, t, d):
        if t != "any" and self.chance(self.w["chaos"]):
            t = self.r.choice(["i", "f", "s", "o", "n", "fn"])
        if t == "any":
            t = self.pick([(5, "i"), (2 * self.w["strs"], "s"), (2 * self.w["floats"], "f"), (self.w["objs"], "o"), (0.4, "n"), (0.3, "fn")])
        if t == "i":
            return self.int_(d)
        if t == "f":
            return self.float_(d)
        if t == "s":
            return self.str_(d)
        if t == "o":
            return self.obj_(d)
        if t == "n":
            return self.nil_(d)
        if t == "x":
            return self.native("mk", [])
        if t == "fn":
            fs = [f.name for f in self.funcs] + ["print"]
            return self.var(self.r.choice(fs))
        raise AssertionError(t)

    def var(self, x):
        return E(self.add("var", s=x), x)

    def assignable(self, t):
        return [x for x in self.vars_of(t) if not x.startswith("k")]   # k..: loop counters

    def bin(self, op, a, b):
        p = PREC[op]
        at, bt = self.par(a, p), self.par(b, p - 1)
        sp = " " if self.chance(0.85) or bt[0] in "-+=" or at[-1] in "-+=" else ""
        return E(self.add("bin", s=op, a=a.n, b=b.n), at + sp + op + sp + bt, p)

    def un(self, op, a):
        t = self.par(a, 1)
        if t[0] == op or t[0] in "-+":
            t = "(" + t + ")"
        return E(self.add("un", s=op, a=a.n), op + t, 1)

    def inc(self, lv):
        op = self.r.choice("+-")
        if self.chance(0.5):
            return E(self.add("inc", s=op, a=lv.n, b=0), op * 2 + lv.t, 1)
        return E(self.add("inc", s=op, a=lv.n, b=1), lv.t + op * 2, 0.5)

    def assign(self, x, e):
        if e.p >= 15:
            e = E(e.n, "(" + e.t + ")")
        return E(self.add("set", s=x, a=e.n), "%s = %s" % (x, e.t), 15)

    def key(self, t):
        """Field key for values of type t: (E, is identifier)."""
        r = self.r
        if t == "i":
            return r.choice([("a", 1), ("b", 1), ("n1", 1), (r.randrange(0, 4), 0)])
        if t == "s":
            return r.choice([("s", 1), ("t", 1)])
        if t == "o":
            return r.choice([("o", 1), ("next", 1)])
        return r.choice([("w", 1), (1.5, 0), (7, 0)])

    def place(self, o, t, d):
        """o.key or o[key]."""
        k, ident = self.key(t)
        base = o.t if o.p == 0 else "(" + o.t + ")"
        if ident and self.chance(0.6):
            kn = self.add("lit", v=V("s", s=k))
            return E(self.add("get", a=o.n, b=kn), base + "." + k)
        if ident:
            ke = self.lit(V("s", s=k), quote(k))
        elif isinstance(k, float):
            ke = self.lit(V("f", int(k * 2), 1), repr(k))
        elif t == "i" and self.chance(0.4) and d > 0:
            ke = self.int_(d - 1)
        else:
            ke = self.lit(V("i", k), str(k))
        return E(self.add("get", a=o.n, b=ke.n), "%s[%s]" % (base, ke.t))

    def field(self, t, d):
        vs = self.vars_of("o") + self.vars_of("x")
        if not vs:
            return None
        return self.place(self.var(self.r.choice(vs)), t, d)

    def args(self, es):
        return ", ".join(e.t for e in es)

    def native(self, f, es):
        if self.chance(self.w["chaos"]):
            if self.chance(0.5) and es:
                es = es[:-1]
            else:
                es = es + [self.nil_(0)]
        c = self.var(f)
        return E(self.add("call", a=c.n, l=[e.n for e in es]), "%s(%s)" % (f, self.args(es)))

    def call(self, t, d):
        fs = [f for f in self.funcs if f.ret == t and (not f.yields or self.incoro)]
        if not fs or self.budget <= 0:
            return None
        self.budget -= 1
        f = self.r.choice(fs)
        es = [self.fuel() if p == "fuel" else self.expr(p, d - 1) for p in f.params]
        if self.chance(self.w["chaos"]):
            es = es + [self.int_(0)] if self.chance(0.5) else es[:-1]
        c = self.var(f.name)
        q = self.r.random()
        if q < 0.06:
            base = "(" + c.t + ")"
        else:
            base = c.t
        return E(self.add("call", a=c.n, l=[e.n for e in es]), "%s(%s)" % (base, self.args(es)))

    def fuel(self):
        return self.ilit(self.r.randrange(0, 4))

    def method(self, o, d):
        """o->run(int): objects of type m have a method taking (self, int)."""
        e = self.int_(d - 1)
        k = self.add("lit", v=V("s", s="run"))
        return E(self.add("self", a=o.n, b=k, l=[e.n]), "%s->run(%s)" % (o.t, e.t))

    def callback(self, d):
        fs = [f for f in self.funcs if not f.yields and f.ret in "is" and len(f.params) < 5]
        if not fs or self.budget <= 0:
            return self.int_(d - 1)
        self.budget -= 1
        f = self.r.choice(fs)
        es = [self.fuel() if p == "fuel" else self.expr(p, d - 1) for p in f.params]
        if self.chance(self.w["chaos"]):
            es = es[:-1]
        c, fe = self.var("call"), self.var(f.name)
        e = E(self.add("call", a=c.n, l=[fe.n] + [x.n for x in es]), "call(%s)" % ", ".join([fe.t] + [x.t for x in es]))
        return self.bin("+", self.int_(0), e) if f.ret == "i" else self.bin("==", e, self.str_(0))

    def anon_fn(self, params, yields=False):
        """A literal function on one line; returns an int."""
        names = [self.name("p") for _ in params]
        keep = (self.inline, self.scopes, self.infn, self.incoro, self.loops, self.depth)
        self.inline = []
        self.scopes = [self.scopes[0], dict(zip(names, params))]
        self.infn = Fn("", params, "i")
        self.incoro = yields
        self.loops = 0
        n = self.r.randrange(0, 3)
        self.scopes.append({})
        body = [self.stmt(1) for _ in range(n)]
        e = self.int_(2)
        self.emit("return %s;" % e.t)
        body.append(self.add("ret", a=e.n))
        text = " ".join(self.inline)
        self.inline, self.scopes, self.infn, self.incoro, self.loops, self.depth = keep
        if not n and self.chance(0.5):                  # a body need not be a block
            blk = body[0]
            if self.chance(0.3):                        # ... it can even be a declaration
                blk, text = self.add("decl", s="local", a=e.n), "var local = %s;" % e.t
        else:
            blk, text = self.add("blk", l=body), "{ %s }" % text
        self.fns.append(dict(args=names, body=blk))
        return E(self.add("lit", v=V("fn", len(self.fns))), "function(%s) %s" % (", ".join(names), text))

    def anon_call(self, d):
        ps = ["i"] * self.r.randrange(0, 3)
        f = self.anon_fn(ps)
        es = [self.int_(d - 1) for _ in ps]
        return E(self.add("call", a=f.n, l=[e.n for e in es]), "(%s)(%s)" % (f.t, self.args(es)))

    def yield_(self, d):
        if self.chance(0.2):
            return E(self.add("yield"), "yield()")
        e = self.expr("any" if self.chance(0.3) else "i", d)
        return E(self.add("yield", a=e.n), "yield(%s)" % e.t)

    def resume(self, d):
        vs = self.vars_of("c")
        if not vs or self.budget <= 0:
            return None
        self.budget -= 1
        c = self.var(self.r.choice(vs))
        if self.chance(0.4):
            e = E(self.add("resume", a=c.n), "resume(%s)" % c.t)
        else:
            v = self.int_(d - 1)
            e = E(self.add("resume", a=c.n, b=v.n), "resume(%s, %s)" % (c.t, v.t))
        return self.bin("==", e, self.int_(0)) if self.chance(0.3) else self.bin("!=", self.nil_(0), e)

    def cocreate(self, d):
        f = self.r.choice(self.cofuncs)
        es = [self.expr(p, d - 1) for p in f.params]
        if self.chance(self.w["chaos"]):
            es = es[:-1] if self.chance(0.5) else es + [self.nil_(0)]
        c = self.var(f.name)
        return E(self.add("co", a=c.n, l=[e.n for e in es]), "coroutine(%s)" % ", ".join([c.t] + [e.t for e in es]))

    # -- statements: each returns a node
    def block(self, n, d, scope=True):
        self.scopes.append({})
        l = [self.stmt(d) for _ in range(n)]
        self.scopes.pop()
        return l

    def body(self, d, n=None):
        """A braced body or a single statement; returns (node, text lines emitted)."""
        self.emit("{")
        self.depth += 1
        l = self.block(n if n is not None else self.r.randrange(1, 4), d)
        self.depth -= 1
        self.emit("}")
        return self.add("blk", l=l)

    def declare(self, x, t):
        self.scopes[-1][x] = t

    def vname(self, t):
        r = self.r
        if len(self.scopes) > 1 and self.chance(0.25):    # shadow something
            vs = [x for x in self.vars_of(t) if x not in self.scopes[-1] and not x.startswith("k")]
            if vs:
                return r.choice(vs)
        return self.name(t)

    def stmt(self, d, one=False):
        """Emits a statement (exactly one if one is set)."""
        self.here()
        r = self.r
        w = self.w
        if d <= 0:
            k = self.pick([(3, "print"), (2, "set"), (1.5, "var"), (1 * w["objs"], "fset"), (1, "expr")])
        else:
            k = self.pick([(4, "print"), (3, "set"), (3, "var"), (2 * w["objs"], "fset"), (1, "expr"), (2, "if"),
                           (1, "while"), (0.8, "do"), (1.5, "for"), (0.5, "blk"), (0.6 if self.loops else 0, "brk"),
                           (0.7 if self.infn else 0, "ret"), (0.7 * w["gc"], "gc"), (0.6 * w["objs"], "ovar"),
                           (0.8 * w["native"], "xvar"), (0.5 * w["native"], "setref"), (0.4 * w["native"], "handle"),
                           (1.2 * w["coro"], "covar"), (1.2 * w["coro"] if self.incoro else 0, "yield"),
                           (1.2 * w["coro"], "drain"), (0.5 * w["objs"] if len(self.scopes) > 0 else 0, "mvar"),
                           (0.3 * w["objs"], "callable"), (0.3 * w["anon"] if self.inline is None else 0, "nested"),
                           (0.25 * w["objs"], "nilout"), (w["chaos"] * 4, "fail"), (0.5 * w["objs"], "list"), (0.7 * w["objs"], "finc")])
        at0 = self._at
        if one and k in ("mvar", "callable", "list", "finc"):
            k = "print"
        if k == "print":
            es = [self.expr("any", 2) for _ in range(self.pick([(6, 1), (3, 2), (1, 3)]))]
            c = self.native_print(es)
            self.emit(c.t + ";")
            return self.add("expr", a=c.n)
        if k == "set":
            t = self.pick([(4, "i"), (w["floats"], "f"), (w["strs"], "s"), (0.5 * w["objs"], "o")])
            vs = self.assignable(t)
            if not vs:
                k = "var"
            else:
                e = self.assign(r.choice(vs), self.expr(t, 3))
                self.emit(e.t + ";")
                return self.add("expr", a=e.n)
        if k == "var":
            t = self.pick([(4, "i"), (w["floats"], "f"), (w["strs"], "s"), (0.7 * w["objs"], "o")])
            if t == "i" and self.chance(0.15):
                x = self.vname(t)
                self.declare(x, t)
                self.emit("var %s;" % x)
                return self.add("decl", s=x)
            return self.decl(t, self.expr(t, 3))
        if k == "ovar":
            return self.decl("o", E(self.add("new"), "object()"))
        if k == "xvar":
            return self.decl("x", self.native("mk", []))
        if k == "fset":
            t = self.pick([(3, "i"), (w["strs"], "s"), (1, "o"), (0.7, "any")])
            f = self.field(t, 1)
            if f is None:
                return self.decl("o", E(self.add("new"), "object()"))
            e = self.expr(t, 2)
            return self.fset(f, e)
        if k == "nilout":
            f = self.field(r.choice("iso"), 1)
            if f is None:
                return self.decl("o", E(self.add("new"), "object()"))
            return self.fset(f, self.nil_(0))
        if k == "expr":
            e = self.int_(3)
            self.emit(e.t + ";")
            return self.add("expr", a=e.n)
        if k == "if":
            e = self.int_(2)
            n = self.add("if", a=e.n)
            if self.chance(0.3):      # single statements instead of blocks
                self.emit("if(%s)" % e.t)
                self.depth += 1
                self.scopes.append({})
                b = self.stmt(0)
                self.scopes.pop()
                self.depth -= 1
            else:
                self.emit("if(%s)" % e.t)
                b = self.body(d - 1)
            c = 0
            if self.chance(0.45):
                self.emit("else")
                if self.chance(0.3) and d > 1:
                    self.scopes.append({})
                    c = self.stmt(d - 1, one=True)
                    self.scopes.pop()
                else:
                    c = self.body(d - 1)
            self.nodes[n - 1].update(b=b, c=c, at=at0)
            return n
        if k == "while":
            x = self.name("k")
            lim = r.randrange(0, 4)
            outer = self.scopes
            self.scopes.append({})
            l = []
            self.emit("{")
            self.here()
            dn = self.add("decl", s=x, a=self.add("lit", v=V("i", 0)))
            self.emit("var %s = 0;" % x)
            self.declare(x, "i")
            self.here()
            at1 = self._at
            inc = self.add("inc", s="+", a=self.add("var", s=x), b=1)
            cond = self.add("bin", s="<", a=inc, b=self.add("lit", v=V("i", lim)))
            self.emit("while(%s++ < %d)" % (x, lim))
            n = self.add("while", a=cond)
            self.loops += 1
            b = self.body(d - 1)
            self.loops -= 1
            self.nodes[n - 1].update(b=b, at=at1)
            self.emit("}")
            self.scopes.pop()
            return self.add("blk", l=[dn, n])
        if k == "do":
            x = self.name("k")
            lim = r.randrange(0, 4)
            self.scopes.append({})
            self.emit("{")
            self.here()
            dn = self.add("decl", s=x, a=self.add("lit", v=V("i", 0)))
            self.emit("var %s = 0;" % x)
            self.declare(x, "i")
            self.emit("do")
            self.loops += 1
            b = self.body(d - 1)
            self.loops -= 1
            self.here()
            inc = self.add("inc", s="+", a=self.add("var", s=x), b=0)
            cond = self.add("bin", s="<", a=inc, b=self.add("lit", v=V("i", lim)))
            self.emit("while(++%s < %d);" % (x, lim))
            n = self.add("do", a=b, b=cond)
            self.emit("}")
            self.scopes.pop()
            return self.add("blk", l=[dn, n])
        if k == "for":
            x = self.name("k")
            lim = r.randrange(0, 5)
            self.scopes.append({})
            one = self.add("lit", v=V("i", 0))
            ini = self.add("decl", s=x, a=one)
            self.declare(x, "i")
            cond = self.add("bin", s="<", a=self.add("var", s=x), b=self.add("lit", v=V("i", lim)))
            q = self.chance(0.5)
            if q:
                inc, it = self.add("inc", s="+", a=self.add("var", s=x), b=0), "++" + x
            else:
                inc = self.add("set", s=x, a=self.add("bin", s="+", a=self.add("var", s=x), b=self.add("lit", v=V("i", 1))))
                it = "%s = %s + 1" % (x, x)
            if self.chance(0.1) and w["chaos"]:
                inc = self.add("set", s=x, a=self.add("bin", s="+", a=self.add("var", s=x), b=self.add("var", s="print")))
                it = "%s = %s + print" % (x, x)
            self.emit("for(var %s = 0; %s < %d; %s)" % (x, x, lim, it))
            n = self.add("for", a=ini, b=cond, c=inc)
            self.loops += 1
            b = self.body(d - 1)
            self.loops -= 1
            self.scopes.pop()
            self.nodes[n - 1].update(d=b, at=at0)
            return n
        if k == "blk":
            return self.body(d - 1)
        if k == "brk":
            e = self.int_(1)
            n = self.add("if", a=e.n)
            self.emit("if(%s) break;" % e.t)
            self.nodes[n - 1]["b"] = self.add("break")
            return n
        if k == "ret":
            e = self.int_(1)
            v = self.expr(self.infn.ret, 2)
            n = self.add("if", a=e.n)
            self.emit("if(%s) return %s;" % (e.t, v.t))
            self.nodes[n - 1]["b"] = self.add("ret", a=v.n)
            return n
        if k == "gc":
            return self.stat(self.native("gc", []))
        if k == "setref":
            vs = self.vars_of("x")
            if not vs:
                return self.decl("x", self.native("mk", []))
            return self.stat(self.native("setref", [self.var(r.choice(vs)), self.obj_(1)]))
        if k == "handle":
            o = self.obj_(0)
            if self.chance(0.6):
                return self.stat(self.native("hold", [o]))
            return self.stat(self.native("drop", [self.native("hold", [o])]))
        if k == "covar":
            if not self.cofuncs:
                return self.stmt(0)
            return self.decl("c", self.cocreate(2))
        if k == "yield":
            return self.stat(self.yield_(2))
        if k == "drain":
            vs = self.vars_of("c")
            if not vs or self.inline is not None:
                return self.stmt(0)
            c = r.choice(vs)
            x = self.name("k")
            self.emit("{")
            self.here()
            dn = self.add("decl", s=x, a=self.add("lit", v=V("i", 0)))
            self.emit("var %s = 0;" % x)
            self.here()
            fin = self.add("un", s="!", a=self.add("fin", a=self.add("var", s=c)))
            inc = self.add("bin", s="<", a=self.add("inc", s="+", a=self.add("var", s=x), b=1), b=self.add("lit", v=V("i", 6)))
            n = self.add("while", a=self.add("bin", s="&&", a=fin, b=inc))
            self.emit("while(!is_finished(%s) && %s++ < 6)" % (c, x))
            self.here()
            res = self.add("resume", a=self.add("var", s=c), b=self.add("var", s=x))
            pr = self.add("call", a=self.add("var", s="print"), l=[res])
            self.emit("    print(resume(%s, %s));" % (c, x))
            self.nodes[n - 1]["b"] = self.add("expr", a=pr)
            self.emit("}")
            return self.add("blk", l=[dn, n])
        if k == "mvar":     # an object with a method
            x = self.name("m")
            o = self.add("new")
            self.emit("var %s = object();" % x)
            dn = self.add("decl", s=x, a=o)
            self.here()
            self.declare(x, "m")
            f = self.anon_fn(["o", "i"])
            k1 = self.add("lit", v=V("s", s="run"))
            fs = self.add("fset", a=self.add("var", s=x), b=k1, c=f.n)
            self.emit("%s.run = %s;" % (x, f.t))
            # a list node that opens no scope
            return self.add("seq", l=[dn, self.add("expr", a=fs)])
        if k == "callable":
            x = self.name("q")
            o = self.add("new")
            self.emit("var %s = object();" % x)
            dn = self.add("decl", s=x, a=o)
            l = [dn]
            data = self.chance(0.5)
            self.here()
            f = self.anon_fn(["i", "i"] if data else ["i"])
            fs = self.add("fset", a=self.add("var", s=x), b=self.add("lit", v=V("s", s="_exec")), c=f.n)
            self.emit("%s._exec = %s;" % (x, f.t))
            l.append(self.add("expr", a=fs))
            if data:
                self.here()
                e = self.int_(1)
                fs = self.add("fset", a=self.add("var", s=x), b=self.add("lit", v=V("s", s="_data")), c=e.n)
                self.emit("%s._data = %s;" % (x, e.t if e.p < 15 else "(" + e.t + ")"))
                l.append(self.add("expr", a=fs))
            self.here()
            e = self.int_(1)
            cl = self.add("call", a=self.add("var", s=x), l=[e.n])
            pr = self.add("call", a=self.add("var", s="print"), l=[cl])
            self.emit("print(%s(%s));" % (x, e.t))
            l.append(self.add("expr", a=pr))
            return self.add("seq", l=l)
        if k == "nested":
            # a named function in the current scope; sees only globals
            return self.function(nested=True)
        if k == "fail":
            return self.stat(self.native("fail", [self.str_(0)]))
        if k == "finc":
            # count in a field
            vs = self.vars_of("o") + self.vars_of("x")
            if not vs:
                return self.decl("o", E(self.add("new"), "object()"))
            o = r.choice(vs)
            f = self.place(self.var(o), "i", 0)
            first = self.fset(f, self.int_(1))
            self.here()
            kn = self.nodes[self.nodes[f.n - 1]["b"] - 1]
            e = self.inc(E(self.add("get", a=self.add("var", s=o), b=self.add("lit", v=kn["v"])), f.t))
            if self.chance(0.5):
                e = self.bin("+", self.int_(0), e)
            c = self.native_print([e, self.var(o)])
            self.emit(c.t + ";")
            return self.add("seq", l=[first, self.add("expr", a=c.n)])
        if k == "list":
            # build a small linked list and walk it
            x, y = self.name("o"), self.name("k")
            self.emit("var %s = nil;" % x)
            dn = self.add("decl", s=x, a=self.add("lit", v=V("n")))
            self.here()
            n = r.randrange(1, 4)
            l = [dn]
            q = self.name("o")
            self.emit("for(var %s = 0; %s < %d; ++%s) { var %s = object(); %s.next = %s; %s.a = %s; %s = %s; }" % (
                y, y, n, y, q, q, x, q, y, x, q))
            A = self.add
            vv = lambda s: A("var", s=s)
            ss = lambda s: A("lit", v=V("s", s=s))
            bl = A("blk", l=[A("decl", s=q, a=A("new")),
                             A("expr", a=A("fset", a=vv(q), b=ss("next"), c=vv(x))),
                             A("expr", a=A("fset", a=vv(q), b=ss("a"), c=vv(y))),
                             A("expr", a=A("set", s=x, a=vv(q)))])
            l.append(A("for", a=A("decl", s=y, a=A("lit", v=V("i", 0))),
                       b=A("bin", s="<", a=vv(y), b=A("lit", v=V("i", n))),
                       c=A("inc", s="+", a=vv(y), b=0), d=bl))
            self.declare(x, "o")
            return self.add("seq", l=l)
        raise AssertionError(k)

    def native_print(self, es):
        c = self.var("print")
        return E(self.add("call", a=c.n, l=[e.n for e in es]), "print(%s)" % self.args(es))

    def stat(self, e):
        self.emit(e.t + ";")
        return self.add("expr", a=e.n)

    def fset(self, f, e):
        n = self.nodes[f.n - 1]
        if e.p >= 15:
            e = E(e.n, "(" + e.t + ")")
        s = self.add("fset", a=n["a"], b=n["b"], c=e.n)
        self.emit("%s = %s;" % (f.t, e.t))
        return self.add("expr", a=s)

    def decl(self, t, e):
        x = self.vname(t)
        if x in self.scopes[-1]:
            x = self.name(t)
        n = self.add("decl", s=x, a=e.n)
        self.declare(x, t)
        self.emit("var %s = %s;" % (x, e.t))
        return n

    def function(self, nested=False, yields=False, co=False):
        r = self.r
        name = self.name("g" if not nested else "h")
        rec = not nested and not co and self.chance(0.35 * self.w["rec"])
        params = (["fuel"] if rec else []) + [r.choice(["i", "i", "s", "o", "f"]) for _ in range(r.randrange(0, 3))]
        ret = "i" if nested or co or self.chance(0.6) else r.choice(["s", "o"])
        names = [self.name("p") for _ in params]
        f = Fn(name, params, ret, yields=yields, rec=rec)
        self.fns.append(None)
        idx = len(self.fns)
        n = self.add("fun", s=name, v=V("fn", idx))
        if nested:
            self.declare(name, "hfn")
        else:
            self.scopes[0][name] = "gfn"
        self.emit("function %s(%s)" % (name, ", ".join(names)))
        keep = (self.scopes, self.infn, self.incoro, self.loops, self.depth, self.budget)
        self.scopes = [self.scopes[0], dict(zip(names, ["kfuel" if p == "fuel" else p for p in params])), {}]
        self.infn, self.incoro, self.loops, self.depth = f, yields or co, 0, self.depth + 1
        self.budget = min(self.budget, 3)
        self.emit("{")
        l = []
        if rec:
            self.here()
            e = self.expr(ret, 1)
            nn = self.add("if", a=self.add("bin", s="<=", a=self.add("var", s=names[0]), b=self.add("lit", v=V("i", 0))))
            self.emit("if(%s <= 0) return %s;" % (names[0], e.t))
            self.nodes[nn - 1]["b"] = self.add("ret", a=e.n)
            l.append(nn)
        for _ in range(r.randrange(1, 4)):
            l.append(self.stmt(2 if not nested else 1))
        if yields or co:
            for _ in range(r.randrange(1, 3)):
                self.here()
                l.append(self.stat(self.yield_(2)) if self.chance(0.5) else self.stat(self.native_print([self.bin("+", self.str_(0), self.yield_(1))])))
                l.append(self.stmt(1))
        if rec:
            self.here()
            es = []
            for i, p in enumerate(params):
                if p == "fuel":
                    es.append(E(self.add("bin", s="-", a=self.add("var", s=names[0]), b=self.add("lit", v=V("i", 1))), "%s - 1" % names[0], 6))
                else:
                    es.append(self.expr(p, 1))
            c = self.var(name)
            e = E(self.add("call", a=c.n, l=[x.n for x in es]), "%s(%s)" % (name, self.args(es)))
            if ret == "i":
                e = self.bin("+", self.int_(1), e)
            elif ret == "s":
                e = self.bin("+", self.str_(0), e)
            self.emit("return %s;" % e.t)
            l.append(self.add("ret", a=e.n))
        elif ret != "i" or self.chance(0.75):
            self.here()
            e = self.expr(ret, 2)
            self.emit("return %s;" % e.t)
            l.append(self.add("ret", a=e.n))
        self.scopes, self.infn, self.incoro, self.loops, self.depth, self.budget = keep
        self.emit("}")
        blk = self.add("blk", l=l)
        self.fns[idx - 1] = dict(args=names, body=blk)
        if co:
            self.cofuncs.append(f)
        elif not nested:
            self.funcs.append(f)
        return n

    def unit(self, fname=None):
        """One script: functions and statements at the top level."""
        if fname:
            self.fname = fname
        self.lines = []
        self._at = "%s:1" % self.fname
        l = []
        r = self.r
        for _ in range(self.size):
            self.budget = 6
            k = self.pick([(1.2 * self.w["fn"], "fn"), (1.0 * self.w["coro"] if len(self.cofuncs) < 4 else 0, "co"),
                           (0.4 * self.w["coro"], "yfn"), (6, "st")])
            self.here()
            if k == "fn":
                l.append(self.function())
            elif k == "co":
                l.append(self.function(co=True))
            elif k == "yfn":
                l.append(self.function(yields=True))
            else:
                l.append(self.stmt(3))
        n = self.add("unit", l=l)
        self.units.append((self.fname, "\n".join(self.lines) + "\n"))
        self.host.append(dict(op="run", n=n, s="", args=[]))
        return n

    # -- what the host does afterwards
    def value(self, t):
        r = self.r
        if t == "i":
            return V("i", r.choice([0, 1, -1, 5, 42, 2147483647, -2147483648, r.randrange(-1000, 1000)]))
        if t == "f":
            return self.nodes[self.dyadic() - 1]["v"]
        if t == "s":
            return V("s", s=self.text())
        return V("n")

    def dyadic(self):
        i, e = self.r.randrange(1, 200), self.r.randrange(0, 4)
        while e and i % 2 == 0:
            i, e = i // 2, e - 1
        self._at = ""
        return self.add("lit", v=V("f", i, e))

    def hoststeps(self, n):
        r = self.r
        gv = [x for x, t in self.scopes[0].items() if t in ("i", "f", "s", "o", "x")]
        for _ in range(n):
            k = self.pick([(3, "gget"), (2 if gv else 0, "gset"), (2 if self.funcs else 0, "call"), (1, "gc"), (0.5, "none"),
                           (1, "mark")])
            if k == "gget" and gv:
                self.host.append(dict(op="gget", n=0, s=r.choice(gv), args=[]))
            elif k == "none":
                self.host.append(dict(op="gget", n=0, s=r.choice(["nosuch", "a", "n1", "_exec", "t"]), args=[]))
            elif k == "gset":
                self.host.append(dict(op="gset", n=0, s=r.choice(gv), args=[self.value(r.choice("iifsn"))]))
            elif k == "call":
                f = r.choice(self.funcs)
                if f.yields:
                    continue
                args = [V("i", r.randrange(0, 4)) if p == "fuel" else self.value(p) for p in f.params]
                if self.chance(self.w["chaos"] * 2):
                    args.append(V("i", 1))
                self.host.append(dict(op="call", n=0, s=f.name, args=args))
            elif k == "gc":
                self.host.append(dict(op="gc", n=0, s="", args=[]))
            else:
                self.host.append(dict(op="mark", n=0, s="m%d" % r.randrange(9), args=[]))

    def program(self):
        """For the specification."""
        return dict(nodes=self.flat(), fns=self.fns, host=self.host)

    def flat(self):
        """Splices "seq" nodes into the lists they stand in."""
        def expand(l):
            out = []
            for i in l:
                n = self.nodes[i - 1]
                if n["k"] == "seq":
                    out += expand(n["l"])
                else:
                    out.append(i)
            return out
        for n in self.nodes:
            if n["k"] in ("blk", "unit"):
                n["l"] = expand(n["l"])
        return [n if n["k"] != "seq" else dict(n, k="blk") for n in self.nodes]
