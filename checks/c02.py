"""C02: expression trees written with literals, with variables and with mixtures of the two."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import core, tlc
from nkv.check import Check, case_replay
from nkv.core import Case, hx
from nkv.values import V, seen, key, same, quote, dec
from nkv.gen import PREC

C = Check("C02")
C.build()

OUT = V("out")
OPAQUE = ["0.1", "3.14159", "1000000.0", "16777217.0", "0.3333", "123456.789", "0.000001", "99999.99"]


def leaf(r, ty):
    """(value, text)"""
    if ty == "i":
        x = r.choice([0, 1, 2, 3, 7, 10, 255, 65535, 65536, 2147483647, 46341, r.randrange(0, 100), r.randrange(0, 2**31)])
        return V("i", x), str(x)
    if ty == "f":
        if r.random() < 0.25:
            return OUT, r.choice(OPAQUE)
        i, e = r.randrange(0, 300), r.randrange(0, 4)
        while e and i % 2 == 0:
            i, e = i // 2, e - 1
        if i == 0:
            e = 0
        v = V("f", i, e)
        return v, dec(v)
    if ty == "s":
        s = r.choice(["", "0", "1", "-1", "abc", "12", "2.5", "nil", "x\ty", 'q"q', "a b", "".join(r.choice("01ab .") for _ in range(3))])
        return V("s", s=s), quote(s)
    return V("n"), "nil"


class Tree:
    """nodes in evaluation order, the root last"""

    def __init__(self, r, depth, main):
        self.r, self.nodes, self.text = r, [], {}
        self.main = main
        self.build(depth)

    def put(self, **k):
        n = dict(k="lit", a=0, b=0, s="", v=V("n"))
        n.update(k)
        self.nodes.append(n)
        return len(self.nodes)

    def build(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            ty = self.main if r.random() < 0.8 else r.choice("iiifsn")
            v, t = leaf(r, ty)
            n = self.put(v=v)
            self.text[n] = t
            return n
        if r.random() < 0.2:
            a = self.build(d - 1)
            return self.put(k="un", a=a, s=r.choice("-!"))
        ops = {"i": "+ - * / % + - * == != < > <= >= === && ||", "f": "+ - * / + - == < > <= >= ===",
               "s": "+ + + + == < > === !="}[self.main].split()
        a = self.build(d - 1)
        b = self.build(d - 1)
        return self.put(k="bin", a=a, b=b, s=r.choice(ops))

    def leaves(self):
        return [i + 1 for i, n in enumerate(self.nodes) if n["k"] == "lit"]

    def write(self, names, n=None):
        """Source text with leaf i written as names.get(i, literal)."""
        n = n or len(self.nodes)
        nd = self.nodes[n - 1]
        if nd["k"] == "lit":
            return names.get(n, self.text[n]), 0
        if nd["k"] == "un":
            t, p = self.write(names, nd["a"])
            if p > 0 or t[0] in "-!":
                t = "(" + t + ")"
            return nd["s"] + t, 1
        p = PREC[nd["s"]]
        a, ap = self.write(names, nd["a"])
        b, bp = self.write(names, nd["b"])
        if ap > p:
            a = "(" + a + ")"
        if bp >= p or b[0] in "-":
            b = "(" + b + ")"
        return "%s %s %s" % (a, nd["s"], b), p


def forms(r, t):
    """(declarations, expression) of every way to write the tree."""
    ls = t.leaves()
    names = {n: "v%d" % n for n in ls}
    decl = " ".join("var v%d = %s;" % (n, t.text[n]) for n in ls)
    out = [("literals", "", t.write({})[0]), ("variables", decl, t.write(names)[0])]
    for k in range(3):
        sub = {n: names[n] for n in ls if r.random() < 0.5}
        out.append(("mixture %d" % k, decl, t.write(sub)[0]))
    one = r.choice(ls)
    out.append(("one variable", decl, t.write({one: names[one]})[0]))
    out.append(("one literal", decl, t.write({n: names[n] for n in ls if n != one})[0]))
    return out


POS = ["return %s;", "var x = 7; x = %s; return x;", "var o = object(); o.k = %s; return o.k;", "return is(1, %s);", "return (%s);",
       "return (function(a, b) { return b; })(0, %s);", "var x = %s; return x;", "var o = object(); o[%s] = 5; return o[%s] == 5;",
       "if(%s) return 1; else return 0;", "var n = 0; while(%s) { n = 1; break; } return n;",
       "for(var n = 0; %s; n = 1) { return 1; } return 0;", "%s; return 3;", "do { if(!(%s)) break; return 1; } while(0); return 0;",
       "var x = 0; x = x + (%s) * 0; return x;"]
VALUE, KEYPOS, COND, DISCARD, ZERO = {0, 1, 2, 4, 5, 6}, {7}, {8, 9, 10, 12}, {11}, {13}


def round_(seed):
    r = random.Random("C02/%d" % seed)
    trees = []
    for i in range(900):
        main = r.choices("ifs", [5, 2, 2])[0]
        trees.append(Tree(r, r.choice([1, 2, 2, 3, 3, 4, 5]), main))
    res = C.tlc(tlc.run("NkFold", "INIT Init\nNEXT Next\nINVARIANTS Folds Report\n",
                        files={"trees.json": json.dumps([t.nodes for t in trees])}, seed=C.seed))
    pred = {x["t"]: x for x in res.records}
    cases, info = [], {}
    for i, t in enumerate(trees):
        want, cond = pred[i + 1]["r"], pred[i + 1]["c"]
        C.count("trees_" + ("value" if want["t"] not in ("err", "out") else want["t"]))
        fs = forms(r, t)
        # every form in "return", and one other position for all forms
        other = r.choice([p for p in range(1, len(POS)) if p != 3])
        for pos in (0, other):
            src, fns = ["var start = 0;"], []
            for k, (nm, decl, e) in enumerate(fs):
                src.append("function f%d() { %s %s }" % (k, decl, POS[pos].replace("%s", e)))
            lines0 = ["new 0", "cs 0", "lib 0 -", "compile 0 %s %s" % (hx("t.nks"), hx("\n".join(src) + "\n")), "fin 0",
                      "run 0 1000000 0 0 0 1"]
            ids = []
            if want["t"] in ("err", "out") or cond["t"] in ("err", "out"):
                for k in range(len(fs)):
                    c = Case("t%d.%d.%d" % (i, pos, k), lines0 + ["callr 0 - g:%s" % hx("f%d" % k), "err 0", "del 0"])
                    cases.append(c)
                    ids.append((c, 0))
            else:
                c = Case("t%d.%d" % (i, pos), lines0 + ["callr 0 - g:%s" % hx("f%d" % k) for k in range(len(fs))] + ["err 0", "del 0"])
                cases.append(c)
                ids = [(c, k) for k in range(len(fs))]
            info[(i, pos)] = (t, want, cond, fs, ids)
    ev = core.run_cases(C.exe, cases)

    def outcome(evs, k):
        rets = [e for e in evs if e["ev"] == "ret"]
        if not core.exit_ok(evs) or k >= len(rets):
            return ("crash",)
        if rets[k]["err"]:
            er = [e for e in evs if e["ev"] == "err"]
            return ("err", er[0]["text"].split("\n")[0].split(": ", 1)[-1] if er else "?")
        return ("value",) + key(seen(rets[k]["v"]))

    def judge(i, pos, ev):
        t, want, cond, fs, ids = info[(i, pos)]
        got = [outcome(ev.get(c.id, []), k) for c, k in ids]
        exp = None
        if want["t"] == "err":
            exp = ("err", want["s"])
        elif want["t"] != "out":
            if pos in VALUE:
                exp = ("value",) + key(want)
            elif pos in COND:
                exp = {"err": ("err", cond["s"]), "i": ("value",) + key(V("i", cond["i"]))}.get(cond["t"])
            elif pos in DISCARD:
                exp = ("value",) + key(V("i", 3))
            elif pos in ZERO and want["t"] in "if":
                exp = ("value",) + key(V("i", 0)) if want["t"] == "i" else None
            elif pos in KEYPOS and not (want["t"] == "f" and want["s"]):
                exp = ("value",) + key(V("i", 1))
        for (nm, decl, e), g in zip(fs, got):
            if g[0] == "crash":
                return nm, "%s: did not survive" % e
            if exp is not None and g != exp:
                return nm, "%s (%s, in %r): got %s, specification says %s" % (e, nm, POS[pos], g, exp)
            if g != got[0]:
                return nm, "%s gives %s, but written as %s it gives %s" % (fs[0][2], got[0], e, g)
        return None
    for (i, pos) in info:
        v = judge(i, pos, ev)
        if v:
            e2 = {c.id: core.run_one(C.exe, c)[0] for c, _ in info[(i, pos)][4]}
            v = judge(i, pos, e2)
        if v:
            C.report(v[0], v[1], case_replay(info[(i, pos)][4][0][0], v[1]))
        C.traces += len(info[(i, pos)][4])
        C.count("forms_compared", len(info[(i, pos)][3]))
    C.sample({"tree": trees[0].write({})[0], "result": pred[1]["r"]})


k = 0
import time
while k < 2 or (C.thorough and time.time() - C.t0 < 600):
    round_(C.seed * 1000 + k)
    k += 1
C.finish()
