"""Ninkasi source text -> the syntax table NkLang.tla runs (the same form gen.py makes).

Every statement header stands on one line of its own; a statement's nodes carry
that line.  Text that the grammar does not derive raises Bad."""
import re
from .values import V
from .gen import PREC

TOK = re.compile(r'\s+|//[^\n]*|"(?:[^"\\]|\\.)*"|\d+\.\d*|\d+|[A-Za-z_][A-Za-z_0-9]*|'
                 r'===|->|\+\+|--|==|!=|<=|>=|&&|\|\||[-+*/%<>=!(){}\[\];,.]', re.S)
WORDS = {"var", "function", "return", "if", "else", "while", "do", "for", "nil", "break", "object", "len", "yield",
         "resume", "coroutine", "is_finished"}
ESC = {"n": "\n", "t": "\t", "r": "\r", '"': '"'}     # other escapes stay as they are written


class Bad(Exception):
    pass


def lex(src):
    out, i, line = [], 0, 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Bad("token at %r" % src[i:i + 20])
        t = m.group()
        if not t.isspace() and not t.startswith("//"):
            if t[0] == '"':
                s = re.sub(r"\\(.)", lambda x: ESC.get(x.group(1), x.group()), t[1:-1], flags=re.S)
                if out and out[-1][0] == "str":
                    out[-1] = ("str", out[-1][1] + s, out[-1][2])
                else:
                    out.append(("str", s, line))
            elif t[0].isdigit():
                out.append(("flt" if "." in t else "int", t, line))
            elif t[0].isalpha() or t[0] == "_":
                out.append(("kw" if t in WORDS else "id", t, line))
            else:
                out.append(("op", t, line))
        line += t.count("\n")
        i = m.end()
    out.append(("end", "", line))
    return out


def dyadic(t):
    a, b = t.split(".")
    n, e = int(a + b), 0
    den = 10 ** len(b)
    while den > 1:
        if den % 2 == 0 and n % 2 == 0:
            n, den = n // 2, den // 2
        elif den % 5 == 0 and n % 5 == 0:
            n, den = n // 5, den // 5
        else:
            break
    while den > 1 and den % 2 == 0:
        den //= 2
        e += 1
    if den != 1 or abs(n) >= 2 ** 24:
        raise Bad("float %s is not exact" % t)
    return V("f", n, e if n else 0)


class Prog:
    """A program from source texts, with what gen.Gen offers to lang.py."""

    def __init__(self, units=(), host=()):
        self.nodes, self.fns, self.units, self.host = [], [], [], []
        for fname, src in units:
            self.unit(fname, src)
        self.host += list(host)

    def add(self, k, **kw):
        n = dict(k=k, a=0, b=0, c=0, d=0, l=[], s="", v=V("n"), at=self._at)
        n.update(kw)
        self.nodes.append(n)
        return len(self.nodes)

    def unit(self, fname, src):
        self.fname, self.toks, self.p = fname, lex(src), 0
        self._at = "%s:1" % fname
        l = []
        while self.peek()[0] != "end":
            l.append(self.stmt())
        n = self.add("unit", l=l)
        self.units.append((fname, src))
        self.host.append(dict(op="run", n=n, s="", args=[]))

    def program(self):
        return dict(nodes=self.nodes, fns=self.fns, host=self.host)

    def hoststeps(self, n, r):
        """What the host does afterwards, with the globals the units declare."""
        tops = [self.nodes[i - 1] for u in self.nodes if u["k"] == "unit" for i in u["l"]]
        gv = [t["s"] for t in tops if t["k"] == "decl"]
        for _ in range(n):
            k = r.choice(["gget", "gget", "gset", "gc", "mark", "none"])
            if k == "gget" and gv:
                self.host.append(dict(op="gget", n=0, s=r.choice(gv), args=[]))
            elif k == "gset" and gv:
                self.host.append(dict(op="gset", n=0, s=r.choice(gv), args=[V("i", r.randrange(-5, 100))]))
            elif k == "none":
                self.host.append(dict(op="gget", n=0, s=r.choice(["nosuch", "a", "count_", "_exec"]), args=[]))
            elif k == "gc":
                self.host.append(dict(op="gc", n=0, s="", args=[]))
            else:
                self.host.append(dict(op="mark", n=0, s="m%d" % r.randrange(9), args=[]))

    # -- tokens
    def peek(self, k=0):
        return self.toks[min(self.p + k, len(self.toks) - 1)]

    def at_(self, t):
        k = self.peek()
        return k[1] == t and k[0] in ("op", "kw")

    def take(self):
        t = self.peek()
        self.p += 1
        return t

    def eat(self, t):
        if not self.at_(t):
            raise Bad("expected %s, found %s" % (t, self.peek()))
        return self.take()

    def ident(self):
        t = self.take()
        if t[0] != "id":
            raise Bad("identifier expected, found %s" % (t,))
        return t[1]

    def here(self):
        self._at = "%s:%d" % (self.fname, self.peek()[2])

    # -- statements
    def stmt(self):
        self.here()
        at = self._at
        t = self.peek()
        if t[0] == "end":
            raise Bad("ran out")
        k = t[1] if t[0] in ("op", "kw") else ""
        if k == "var":
            self.take()
            x = self.ident()
            e = 0
            if self.at_("="):
                self.take()
                e = self.expr()
            self.eat(";")
            return self.add("decl", s=x, a=e)
        if k == "return":
            self.take()
            e = self.expr()
            self.eat(";")
            return self.add("ret", a=e)
        if k == "{":
            return self.block()
        if k == "if":
            self.take()
            self.eat("(")
            c = self.expr()
            self.eat(")")
            n = self.add("if", a=c)
            b = self.stmt()
            e = 0
            if self.at_("else"):
                self.take()
                e = self.stmt()
            self.nodes[n - 1].update(b=b, c=e)
            return n
        if k == "while":
            self.take()
            self.eat("(")
            c = self.expr()
            self.eat(")")
            n = self.add("while", a=c)
            self.nodes[n - 1]["b"] = self.stmt()
            return n
        if k == "do":
            self.take()
            b = self.stmt()
            self.here()
            self.eat("while")
            self.eat("(")
            c = self.expr()
            self.eat(")")
            self.eat(";")
            return self.add("do", a=b, b=c, at=at)
        if k == "for":
            self.take()
            self.eat("(")
            a = self.stmt()
            b = self.expr()
            self.eat(";")
            c = self.expr()
            self.eat(")")
            n = self.add("for", a=a, b=b, c=c)
            self.nodes[n - 1]["d"] = self.stmt()
            return n
        if k == "break":
            self.take()
            self.eat(";")
            return self.add("break")
        if k == "function" and self.peek(1)[0] == "id":
            self.take()
            x = self.ident()
            self.fns.append(None)
            idx = len(self.fns)
            n = self.add("fun", s=x, v=V("fn", idx))
            self.function(idx)
            return n
        e = self.expr()
        self.eat(";")
        return self.add("expr", a=e)

    def block(self):
        self.eat("{")
        l = []
        n = self.add("blk")
        while not self.at_("}"):
            l.append(self.stmt())
        self.eat("}")
        self.nodes[n - 1]["l"] = l
        return n

    def function(self, idx):
        self.eat("(")
        args = []
        while not self.at_(")"):
            args.append(self.ident())
            if not self.at_(")"):
                self.eat(",")
        self.eat(")")
        self.fns[idx - 1] = dict(args=args, body=self.stmt())

    # -- expressions
    def expr(self):
        e = self.binary(14)
        if self.at_("="):
            self.take()
            n = self.nodes[e - 1]
            v = self.binary(14)
            if n["k"] == "var":
                e = self.add("set", s=n["s"], a=v)
            elif n["k"] == "get":
                e = self.add("fset", a=n["a"], b=n["b"], c=v)
            else:
                raise Bad("assignment to %s" % n["k"])
            if self.at_("="):
                raise Bad("chained assignment")
        return e

    def binary(self, lim):
        e = self.prefix()
        while self.peek()[0] == "op" and PREC.get(self.peek()[1], 99) <= lim:
            op = self.take()[1]
            b = self.binary(PREC[op] - 1)
            e = self.add("bin", s=op, a=e, b=b)
        return e

    def prefix(self):
        for op in ("++", "--"):
            if self.at_(op):
                self.take()
                return self.inc(op[0], self.prefix(), 0)
        for op in ("-", "!"):
            if self.at_(op):
                self.take()
                return self.add("un", s=op, a=self.prefix())
        return self.postfix(self.primary())

    def inc(self, s, place, post):
        if self.nodes[place - 1]["k"] not in ("var", "get"):
            raise Bad("++ of something that is not a place")
        return self.add("inc", s=s, a=place, b=post)

    def args(self):
        self.eat("(")
        l = []
        while not self.at_(")"):
            l.append(self.expr())
            if not self.at_(")"):
                self.eat(",")
        self.eat(")")
        return l

    def postfix(self, e):
        while True:
            if self.at_("("):
                e = self.add("call", a=e, l=self.args())
            elif self.at_("["):
                self.take()
                k = self.expr()
                self.eat("]")
                e = self.add("get", a=e, b=k)
            elif self.at_("."):
                self.take()
                e = self.add("get", a=e, b=self.add("lit", v=V("s", s=self.ident())))
            elif self.at_("->"):
                self.take()
                k = self.add("lit", v=V("s", s=self.ident()))
                e = self.add("self", a=e, b=k, l=self.args())
            elif self.at_("++") or self.at_("--"):
                e = self.inc(self.take()[1][0], e, 1)
            else:
                return e

    def primary(self):
        t = self.take()
        if t[0] == "int":
            return self.add("lit", v=V("i", int(t[1])))
        if t[0] == "flt":
            return self.add("lit", v=dyadic(t[1]))
        if t[0] == "str":
            return self.add("lit", v=V("s", s=t[1]))
        if t[0] == "id":
            return self.add("var", s=t[1])
        if t[1] == "(":
            e = self.expr()
            self.eat(")")
            return e
        if t[1] == "nil":
            return self.add("lit", v=V("n"))
        if t[1] == "function":
            self.fns.append(None)
            idx = len(self.fns)
            keep = self._at
            self.function(idx)
            self._at = keep
            return self.add("lit", v=V("fn", idx))
        n = {"object": (0, 0), "len": (1, 1), "yield": (0, 1), "resume": (1, 2), "coroutine": (1, 99), "is_finished": (1, 1)}.get(t[1])
        if not n:
            raise Bad("unexpected %s" % (t,))
        l = self.args()
        if not n[0] <= len(l) <= n[1]:
            raise Bad("arguments of %s" % t[1])
        z = l + [0, 0]
        if t[1] == "object":
            return self.add("new")
        if t[1] == "len":
            return self.add("len", a=z[0])
        if t[1] == "yield":
            return self.add("yield", a=z[0])
        if t[1] == "resume":
            return self.add("resume", a=z[0], b=z[1])
        if t[1] == "coroutine":
            return self.add("co", a=z[0], l=l[1:])
        return self.add("fin", a=z[0])
