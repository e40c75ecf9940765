"""C01: the operator table of NkOps against the implementation."""
import random, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import core, tlc
from nkv.check import Check, case_replay
from nkv.core import Case, hx
from nkv.values import V, same, token, literal, key, seen

C = Check("C01")
R = random.Random(C.seed)
OPN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "==": "eq", "!=": "ne", "<": "lt", ">": "gt",
       "<=": "le", ">=": "ge", "===": "same", "&&": "and", "||": "or", "u-": "neg", "u!": "not"}


def ex(op, x, y):
    return (op[1] + "(" + x + ")") if op[0] == "u" else "%s %s %s" % (x, op, y)


def extra():
    n = 12 if not C.thorough else 60
    out = set()
    for _ in range(n):
        out.add("I(%s)" % tlc.tla(R.choice([R.randrange(-2**31, 2**31), R.randrange(-70000, 70000), 2**R.randrange(31) - R.randrange(2)])))
        out.add("F(%d, %d)" % (R.randrange(-9999, 9999), R.randrange(0, 7)))
        out.add("S(%s)" % tlc.tla("".join(R.choice("ab01 .-9xZ~") for _ in range(R.randrange(0, 5)))))
    return out


MOD = """---- MODULE NkOpsData ----
EXTENDS NkValue
ExtraVals == {v \\in {%s} : ~IsBad(v)}
====
""" % ", ".join(sorted(extra()))

exe = C.build()
r = C.tlc(tlc.run("NkOps", "INIT Init\nNEXT Next\nINVARIANTS TypeOK IntLaws StringLaws EqLaws FloatLaws Emit\n",
                  files={"NkOpsData.tla": MOD}, seed=C.seed))
table = sorted(r.records, key=lambda x: (x[0], key(x[1]), key(x[2])))
good = [x for x in table if x[3]["t"] not in ("err", "out")]
bad = [x for x in table if x[3]["t"] == "err"]
C.extra["operations_outside_specification"] = sum(1 for x in table if x[3]["t"] == "out")

LIB = "".join("function L_%s(x, y) { print(%s); }\nfunction V_%s(x, y) { var p = x; var q = y; return %s; }\n"
              "function G_%s() { print(%s); }\nfunction O_%s(x, y) { var o = object(); o.x = x; o[2] = y; print(%s); }\n"
              % (n, ex(op, "x", "y"), n, ex(op, "p", "q"), n, ex(op, "ga", "gb"), n, ex(op, "o.x", "o[2]"))
              for op, n in OPN.items())
HEAD = ["new 0", "cs 0", "lib 0", "gmake 0 %s n" % hx("ga"), "gmake 0 %s n" % hx("gb"),
        "compile 0 %s %s" % (hx("t.nks"), hx(LIB)), "fin 0", "run 0 1000000 0 0 0 1", "obj 0 r1", "obj 0 r2",
        "acq 0 r1", "acq 0 r2"]
OPNAMES = {n: op for op, n in OPN.items()}
cases, exp = [], {}


def call(form, x):
    op, a, b, _ = x
    n = OPN[op]
    if form == "G":
        return ["gset 0 %s %s" % (hx("ga"), token(a)), "gset 0 %s %s" % (hx("gb"), token(b)),
                "callr 0 - g:%s" % hx("G_" + n)]
    return ["callr 0 - g:%s %s %s" % (hx(form + "_" + n), token(a), token(b))]


CH = 400
# Results: every row in every form.
forms = ["L", "V", "G", "O"]
for form in forms:
    for i in range(0, len(good), CH):
        rows = good[i:i + CH]
        c = Case("%s%d" % (form, i), HEAD + [l for x in rows for l in call(form, x)] + ["err 0", "del 0"])
        cases.append(c)
        exp[c.id] = (form, rows)
# Literals on both sides, and on one side only.
lits = [x for x in good if literal(x[1]) is not None and (x[0][0] == "u" or literal(x[2]) is not None)]
for i in range(0, len(lits), CH):
    rows = lits[i:i + CH]
    src = "function kk(x) { return x; }\n"
    for k, (op, a, b, _) in enumerate(rows):
        la, lb = literal(a), literal(b) or ""
        la = "(%s)" % la if la[0] == "-" else la
        lb = "(%s)" % lb if lb[:1] == "-" else lb
        f = k % 3
        src += "print(%s);\n" % ex(op, "kk(%s)" % la if f == 1 else la, "kk(%s)" % lb if f == 2 else lb)
    c = Case("K%d" % i, ["new 0", "cs 0", "lib 0", "compile 0 %s %s" % (hx("t.nks"), hx(src)), "fin 0",
                         "run 0 1000000 0 0 0 1", "err 0", "del 0"])
    cases.append(c)
    exp[c.id] = ("K", rows)
# Errors: one VM each.
if not C.thorough:
    R.shuffle(bad)
    keep, seenk = [], {}
    for x in bad:
        k = (x[0], x[1]["t"], x[2]["t"], x[3]["s"])
        seenk[k] = seenk.get(k, 0) + 1
        if seenk[k] <= 6:
            keep.append(x)
    bad = keep
for i, x in enumerate(bad):
    op, a, b, res = x
    f = i % 3
    if f == 2 and literal(a) is not None and (op[0] == "u" or literal(b) is not None):
        la, lb = literal(a), literal(b) or ""
        src = "print(1);\nprint(%s);\nprint(2);\n" % ex(op, "(" + la + ")", "(" + lb + ")")
        c = Case("e%d" % i, ["new 0", "cs 0", "lib 0", "compile 0 %s %s" % (hx("t.nks"), hx(src)), "fin 0",
                             "run 0 100000 0 0 0 1", "err 0", "del 0"])
        exp[c.id] = ("errK", x)
    else:
        c = Case("e%d" % i, HEAD + call("L" if f else "G", x) + ["err 0", "del 0"])
        exp[c.id] = ("err", x)
    cases.append(c)

res = core.run_cases(exe, cases)


def check(c, evs):
    """None, or (key, text)."""
    form, rows = exp[c.id]
    if form.startswith("err"):
        op, a, b, want = rows
        pr = [e for e in evs if e["ev"] == "call"]
        er = [e for e in evs if e["ev"] == "err"]
        k = "%s %s %s" % (op, a, b)
        if not core.exit_ok(evs):
            return "crash " + k, "the VM did not survive %s: %s" % (k, evs[-1:])
        if len(pr) != (1 if form == "errK" else 0):
            return "effect " + k, "%s: %d host calls around the failing operation" % (k, len(pr))
        if not er or not er[0]["n"]:
            return "noerror " + k, "%s reported no error, expected %r" % (k, want["s"])
        first = er[0]["text"].split("\n")[0]
        if not first.endswith(": " + want["s"]) and first != want["s"]:
            return "errtext " + k, "%s reported %r, expected %r" % (k, first, want["s"])
        return None
    if form == "V":
        got = [e["v"] for e in evs if e["ev"] == "ret"]
    else:
        got = [e["args"][0] for e in evs if e["ev"] == "call"]
    for x, g in zip(rows, got):
        if not same(g, x[3]):
            return "value", "%s of %s and %s (form %s): got %s, specification says %s" % (x[0], x[1], x[2], form, g, x[3])
    er = [e for e in evs if e["ev"] == "err"]
    if not core.exit_ok(evs) or len(got) != len(rows) or not er or er[0]["n"]:
        k = len(got)
        at = rows[k] if k < len(rows) else None
        return "stopped", "form %s: stopped at row %s: %s %s" % (form, at, er, evs[-1:])
    return None


for c in cases:
    v = check(c, res.get(c.id, []))
    if v:
        evs, err = core.run_one(exe, c, 60)
        v = check(c, evs)
    if v:
        C.report(v[0], v[1], case_replay(c, v[1]))
    C.traces += 1
for x in (good[len(good) // 3], bad[len(bad) // 2]):
    C.sample("%s %s %s -> %s" % (x[0], x[1], x[2], x[3]))
C.extra["operations_compared"] = sum(len(e[1]) for e in exp.values() if not e[0].startswith("err")) + len(bad)
C.finish()
