"""Programs, sources and objects at their limits."""
import json, random
from collections import defaultdict
from . import core, gen, idioms, lang, parse, progs, tlc
from .check import case_replay
from .core import Case, hx
from .lang import norm
from .values import V, token

CFG = "INIT Init\nNEXT Next\nINVARIANTS Laws Report\nCONSTANTS MaxSteps = %d\nMacro = %d\n"
STACKERR = ("Stack overflow.", "Reached stack capacity limit.")
PROBE = 'var probe_o = object(); probe_o.a = 20; print("probe", probe_o.a + 1, len(probe_o));'


def recursion(r, depth):
    """A script that calls itself to some depth; None for ever."""
    end = depth is None
    n = 7 if end else depth
    base = "" if end else "if(n == 0) { return %s; }" % r.choice(["0", "n", "1 + 2"])
    show = r.choice(["", "print(n);", "print(n, \"deep\");"])
    loc = "".join("var v%d = %s; " % (i, r.choice(["n + 1", "\"text\"", "n", "3"])) for i in range(r.choice([0, 0, 1, 3, 7])))
    kind = r.choice(["direct", "direct", "mutual", "args", "native", "coroutine", "inco", "exec", "method", "loop", "literal", "operands", "blocks"])
    if kind == "coroutine" and end:
        kind = "inco"
    d = "n - 1"
    if kind == "direct":
        return kind, "function f(n) { %s %s %s return %s; }\nprint(f(%d));" % (loc, show, base, r.choice(["f(%s)", "1 + f(%s)", "f(%s) + 1", "f(%s) + f(0) * 0" if not end else "f(%s)"]) % d, n)
    if kind == "mutual":
        return kind, "var g = nil;\nfunction f(n) { %s %s %s return g(%s) + 1; }\ng = function(n) { %s\n return f(n); };\nprint(f(%d));" % (loc, show, base, d, show, n)
    if kind == "args":
        m = r.randrange(1, 9)
        a = "".join(", a%d" % i for i in range(m))
        return kind, "function f(n%s) { %s %s return f(%s%s) + a0; }\nprint(f(%d%s));" % (a, show, base, d, a, n, "".join(", %d" % i for i in range(m)))
    if kind == "native":
        return kind, "function f(n) { %s %s %s return call(f, %s); }\nprint(f(%d));" % (loc, show, base, d, n)
    if kind == "coroutine":
        return kind, "function f(n) { %s %s %s var c = coroutine(f, %s); return resume(c) + 1; }\nprint(f(%d));" % (loc, show, base, d, n)
    if kind == "inco":
        return kind, "function f(n) { %s %s %s %s return f(%s) + 1; }\nvar c = coroutine(f, %d);\nwhile(!is_finished(c)) { print(resume(c)); }" % (
            loc, show, base, r.choice(["", "yield(n);"]), d, n)
    if kind == "exec":
        return kind, "var o = object();\no._exec = function(n) { %s %s %s return 1 + o(%s); };\nprint(o(%d));" % (loc, show, base, d, n)
    if kind == "method":
        return kind, "var o = object();\no.m = function(self, n) { %s %s %s return self->m(%s); };\nprint(o->m(%d));" % (loc, show, base, d, n)
    if kind == "loop":
        return kind, "function f(n) { %s %s %s var t = 0; for(var i = 0; i < 1; ++i) { var k = i; t = t + f(%s) + k; } return t; }\nprint(f(%d));" % (loc, show, base, d, n)
    if kind == "literal":
        return kind, "var f = nil;\nf = function(n) { %s %s %s var h = function(m) { return f(m); }; return h(%s); };\nprint(f(%d));" % (loc, show, base, d, n)
    if kind == "operands":
        return kind, "function f(n) { %s %s return 1 + (2 + (3 + (4 + f(%s)))); }\nprint(f(%d));" % (show, base, d, n)
    return kind, "function f(n) { %s { var a = n; { var b = a; if(1) { var c = b; %s return f(c - 1) + a; } } } return 3; }\nprint(f(%d));" % (base, show, n)


def wide(r):
    """A script with many values at once, without recursion."""
    k = r.randrange(4)
    n = r.choice([3, 10, 20, 40, 90])
    if k == 0:
        return "wide", "function f(%s) { return a0 + a%d; }\nprint(\"go\");\nprint(f(%s));" % (", ".join("a%d" % i for i in range(n)), n - 1, ", ".join(str(i) for i in range(n)))
    if k == 1:
        return "locals", "function f() { print(\"in\"); %s print(v0, v%d); return v%d; }\nprint(f());" % (" ".join("var v%d = %d;" % (i, i) for i in range(n)), n - 1, n // 2)
    if k == 2:
        m = min(n, 40)
        return "nested", "var x = 1;\nprint(\"go\");\nprint(%s x %s);" % ("(2 + " * m, ")" * m)
    m = min(n, 20)
    return "shadows", "var x = 1;\n%s print(x, y);\n%s\nprint(x);" % (" ".join("{ var y = %d; print(y);" % i for i in range(m)), "}" * m)


def pow2(r, lo=0, hi=12):
    x = 1 << r.randrange(lo, hi + 1)
    return max(0, x + r.choice([-1, 0, 0, 1, x // 2]))


class Src:
    def __init__(self, srcs, host=()):
        self.p = parse.Prog()
        self.units = []
        for i, s in enumerate(srcs):
            fn = "l%d.nks" % i
            self.p.unit(fn, s)
            self.units.append((fn, s))
        q = self.p.program()
        self._p = q
        self.host = []

    def program(self):
        return self._p


def deep(r):
    """(program, extra fields)"""
    k = r.randrange(8)
    if k < 2:
        kind, s = recursion(r, None)
        return Src([s]), dict(endless=True), kind
    if k < 6:
        kind, s = recursion(r, r.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 60]))
    else:
        kind, s = wide(r)
    return Src([s]), {}, kind


def runs_of(r, units):
    return [dict(op="run", n=u, s="", args=[]) for u in units]


def predict(C, ps, steps=3000, macro=50, timeout=600):
    res = C.tlc(tlc.run("NkLimits", CFG % (steps, macro), files={"progs.json": json.dumps(ps)}, seed=C.seed, timeout=timeout))
    out = {rec["pid"]: rec for rec in res.records}
    if len(out) != len(ps):
        raise RuntimeError("TLC reported %d of %d programs\n%s" % (len(out), len(ps), res.text[-3000:]))
    return [out[i + 1] for i in range(len(ps))]


SCHEDS = [progs.PLAIN, progs.PLAIN, progs.SLICE, progs.STEP, progs.GCALL, progs.GCHOST, progs.SHRGC, progs.SER]


def lines(g, s, stack, maxf, probe):
    L = ["new 0"] + list(s["pre"])
    if stack >= 0:
        L.append("lim 0 stack %d" % stack)
    if maxf is not None:
        L.append("lim 0 fields %d" % maxf)
    L += ["cs 0", "lib 0 -"]
    for fn, src in g.units:
        L.append("compile 0 %s %s" % (hx(fn), hx(src)))
    L += ["pfin 0" if probe else "fin 0", "run 0 %d %d %d %d %d" % (s["slice"], s["gc"], s["shrink"], s["ser"], 400000)]
    L += lang.host_lines(g.host, None)
    if probe:
        L += ["mark probe", "recover 0", "repl 0 %s" % hx(PROBE)]
    return L + ["err 0"] + (["fin 0"] if probe else []) + ["del 0"]


def split(evs):
    """Events before and after the probe mark."""
    for i, e in enumerate(evs):
        if e["ev"] == "mark" and e["m"] == "probe":
            return evs[:i], evs[i + 1:]
    return evs, None


def stopped(evs):
    """Whether the program was stopped by the stack limit."""
    return any(e["ev"] in ("ran", "err") and any(t in (e["text"] or "").split("\n")[0] for t in STACKERR) for e in evs)


def until_stop(evs):
    """The events up to the one that shows that the program was stopped."""
    for i, e in enumerate(evs):
        if e["ev"] == "ran" and e["n"] or e["ev"] == "ret" and e["err"]:
            return evs[:i]
    return evs


def prefix(x, evs):
    """None, or how the events are not a part of the predicted ones."""
    got = [n for n in (norm(e) for e in evs) if n is not None]
    open_ = sum(1 if n == ("enter",) else -1 if n[0] == "leave" else 0 for n in got)
    while got and got[-1] == ("leave", 1):
        got.pop()
    want = [norm(e) for e in x["out"]]
    n = min(len(got), len(want))
    for i in range(n):
        if got[i] != want[i]:
            return "event %d: got %s, specification says %s" % (i, got[i], want[i])
    if len(got) > len(want) and x["stat"] in ("end", "err"):
        return "%d events, only %d specified" % (len(got), len(want))
    return None


def judge(x, verdict, stack, probe, evs):
    if not core.exit_ok(evs):
        return "crash", "did not survive: %s" % evs[-2:]
    for e in evs:
        if e["ev"] == "compiled" and not e["ok"]:
            return "refused", "did not compile: %s" % e
    main, rest = split(evs)
    stop = stopped(main) or (rest is None and stopped(evs))
    if stop:
        if verdict == "fits":
            return "early", "stopped by the stack limit %d, needs at most %d" % (stack, x["hi"])
        t = prefix(x, until_stop(main))
        if t:
            return "effects", "before it was stopped by the limit %d: %s" % (stack, t)
    elif verdict == "over":
        return "unlimited", "not stopped by the stack limit %d, needs at least %d" % (stack, x["lo"])
    else:
        tail = [e for e in evs if e["ev"] in ("exit", "fin")]
        t = lang.compare(lang.Expect(x), [e for e in main if e["ev"] not in ("cleanup",)] + tail, gone=False)
        if t:
            return t
    if probe and (stack < 0 or stack >= 64) and x["stat"] != "out":
        # a session goes on
        got = [norm(e) for e in rest if norm(e) is not None]
        pr = [V("s", s="probe"), V("i", 21), V("i", 1)]
        if got != [norm(dict(ev="call", f="print", args=pr))] or not any(e["ev"] == "rdone" and e["n"] == 0 for e in rest):
            return "after", "afterwards the session did not go on: %s" % rest[:4]
    return lang.del_ok(evs)


def batch(C, seed, num, extra=None, timeout=60):
    """Programs under stack limits."""
    r = random.Random("%s/limits/%d" % (C.pid, seed))
    gs, ps = [], []
    for i in range(num):
        if i % 3 < 2:
            g, fields, kind = deep(r)
            limits = sorted({pow2(r, 0, 10) for _ in range(4)} | {r.choice([0, 1, 2, 4, -1])})
            if fields and kind != "native":
                limits += [r.choice([-1, 65535, 65536, 65537, 1 << 20])] if -1 not in limits else []
            if fields and kind == "native":
                limits = [min(l, 2048) if l >= 0 else 1024 for l in limits]
            p = dict(g.program(), **fields)
            p["host"] = runs_of(r, [k + 1 for k, nd in enumerate(p["nodes"]) if nd["k"] == "unit"])
        else:
            prof = r.choice(["core", "calls", "coro", "objects", "native", "mixed", "errors"])
            if r.random() < 0.5:
                g = idioms.make(r, prof, 4, 1, True)
            else:
                g = progs.make(r, prof, 10, 1, r.choice([0, 0, 4]))
            limits = sorted({pow2(r, 0, 7) for _ in range(3)} | {r.choice([0, 1, -1, 1024])})
            p, kind = g.program(), prof
        p["limits"] = sorted(set(limits))
        gs.append((g, kind))
        ps.append(p)
    xs = predict(C, ps)
    cases, info = [], {}
    for i, ((g, kind), p, x) in enumerate(zip(gs, ps, xs)):
        C.count("programs")
        s = r.choice(SCHEDS)
        if p.get("endless"):
            s = r.choice([progs.PLAIN, progs.sched("slices of 1000", slice=1000), progs.sched("collected now and then", slice=997, gc=5, shrink=3)])
        if x["stat"] == "limit" and not p.get("endless"):
            continue
        for j, l in enumerate(p["limits"]):
            probe = not g.host and not s["ser"]
            c = Case("l%d.%d.%d" % (seed, i, j), lines(g, s, l, None, probe))
            cases.append(c)
            info[c.id] = (i, j, probe)
            C.count("verdict_" + x["verdict"][j])
    res = core.run_cases(C.exe, cases, timeout=timeout)
    fit = defaultdict(dict)
    for c in cases:
        i, j, probe = info[c.id]
        x, l = xs[i], ps[i]["limits"][j]
        jd = lambda evs: judge(x, x["verdict"][j], l, probe, evs)
        evs = res.get(c.id, [])
        v = jd(evs)
        if v:
            evs, _ = core.run_one(C.exe, c, timeout * 2)
            v = jd(evs)
        if v:
            C.report(v[0], "%s under stack limit %d: %s" % (gs[i][1], l, v[1]),
                     dict(case_replay(c, v[1]), sources=gs[i][0].units, expected=[x["stat"], x["lo"], x["hi"], x["err"], x["out"][-6:]]))
        else:
            fit[i][l if l >= 0 else 1 << 30] = (not stopped(evs), len([1 for e in split(evs)[0] if norm(e)]), c)
        C.traces += 1
    # the larger the limit, the more it does
    for i, by in fit.items():
        last = None
        for l in sorted(by):
            if last and (last[0] and not by[l][0]):
                C.report("monotone", "works under a smaller stack limit than %d" % l, case_replay(by[l][2]))
            last = by[l]
    if gs:
        C.sample(dict(source=gs[0][0].units[0][1][:500], limits=ps[0]["limits"], verdict=xs[0]["verdict"], lo=xs[0]["lo"], hi=xs[0]["hi"]))
    return gs, ps, xs, fit


def fields(C, seed, num, timeout=60):
    """Programs under a limit on the number of fields."""
    r = random.Random("%s/fields/%d" % (C.pid, seed))
    gs, ps = [], []
    for i in range(num):
        prof = r.choice(["objects", "objects", "mixed", "gc", "core", "strings"])
        g = idioms.make(r, prof, 4, 1, True) if r.random() < 0.6 else progs.make(r, prof, 12, 1, r.choice([0, 3]))
        gs.append(g)
        ps.append(dict(g.program(), limits=[-1], maxf=r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])))
    xs = predict(C, ps)
    cases, info = [], {}
    for i, (g, p, x) in enumerate(zip(gs, ps, xs)):
        C.count("programs")
        if x["err"] and "field count" in x["err"][0]["msg"]:
            C.count("stopped_by_field_limit")
        if x["stat"] == "limit":
            continue
        for s in (progs.PLAIN, r.choice(SCHEDS)):
            c = Case("f%d.%d.%s" % (seed, i, len(cases)), lines(g, s, -1, p["maxf"], False))
            cases.append(c)
            info[c.id] = i
    res = core.run_cases(C.exe, cases, timeout=timeout)
    for c in cases:
        i = info[c.id]

        def jd(evs):
            t = lang.compare(lang.Expect(xs[i]), evs, gone=False)
            return t or (lang.del_ok(evs) if xs[i]["stat"] != "out" else None)
        v = jd(res.get(c.id, []))
        if v:
            evs, _ = core.run_one(C.exe, c, timeout * 2)
            v = jd(evs)
        if v:
            C.report(v[0], "at most %d fields: %s" % (ps[i]["maxf"], v[1]),
                     dict(case_replay(c, v[1]), sources=gs[i].units, expected=[xs[i]["stat"], xs[i]["err"], xs[i]["out"][-6:]]))
        C.traces += 1


# -- deep sources -----------------------------------------------------------
HEAD = """var x = 0; var o = object(); o.id = function(a) { return a; }; o.m = function(self, a) { return a; };
function id(a) { return a; }
function first(a, b) { return a; }
function second(a, b) { return b; }
"""
EW = {"paren": ("(", ")"), "neg": ("-(", ")"), "not": ("!", ""), "plus": ("1 + (", ")"), "chain": ("1 + ", ""),
      "id": ("id(", ")"), "field": ("o.id(", ")"), "method": ("o->m(", ")"), "call": ("call(id, ", ")"), "first": ("first(", ", 7)"),
      "second": ("second(\"s\", ", ")"), "index": ("(o[", "] == nil)"), "anon": ("(function() { return ", "; })()"),
      "assign": ("(x = ", ")"), "less": ("((", ") < 3)"), "and": ("((", ") && 1)")}
SW = {"block": ("{ ", " }"), "if": ("if(1) { ", " }"), "ifbare": ("if(1) ", ""), "else": ("if(0) { print(1); } else { ", " }"),
      "elsebare": ("if(0) print(1); else ", ""), "elseif": ("if(0) { } else if(1) { ", " }"), "while": ("while(1) { ", " break; }"),
      "for": ("for(var i = 0; i < 1; ++i) { ", " }"), "do": ("do { ", " } while(0);"), "fun": ("function g() { ", " } g();")}


def render(sh, es=None, ss=None):
    es = sh["es"] if es is None else es
    ss = sh["ss"] if ss is None else ss
    pre, post = [], []
    low = False       # whether the expression so far needs parentheses inside a unary operator
    for i in range(es):
        k = sh["ep"][i % len(sh["ep"])]
        a, b = EW[k]
        if k == "not" and low:
            a, b = "!(", ")"
        low = k in ("chain", "plus")
        pre.append(a)
        post.append(b)
    pre.append("print(")
    post.append(");")
    for i in range(ss):
        k = sh["sp"][i % len(sh["sp"])]
        a, b = SW[k]
        if k == "fun":
            a, b = a.replace(" g(", " g%d(" % i), b.replace(" g(", " g%d(" % i)
            if i + 1 < ss and sh["sp"][(i + 1) % len(sh["sp"])] in ("ifbare", "elsebare"):
                a, b = "{ " + a, b + " }"
        elif k == "do" or k == "elsebare" or k == "ifbare":
            pass
        pre.append(a)
        post.append(b)
    return HEAD + "".join(reversed(pre)) + str(sh["v0"]) + "".join(post) + "\n"


def nests(C, seed, num, timeout=60):
    lo = seed * num % 1000000
    # the seeds of a run are consecutive
    res = C.tlc(tlc.run("NkNestRun", "INIT Init\nNEXT Next\nINVARIANTS Laws Report\nCONSTANTS Surely = 20\nNever = 640\nSeeds <- SeedsC\n",
                        files={"NkNestRun.tla": "---- MODULE NkNestRun ----\nEXTENDS NkNest\nSeedsC == %d .. %d\n====\n" % (lo, lo + num - 1)}))
    if len(res.records) != num:
        raise RuntimeError("%d of %d nests" % (len(res.records), num))
    r = random.Random("%s/nests/%d" % (C.pid, seed))
    cases, info = [], {}
    for i, rec in enumerate(res.records):
        sh = rec["sh"]
        variants = [(sh["es"], sh["ss"], rec)]
        if rec["verdict"] == "either":      # with fewer levels
            variants.append((sh["es"], r.randrange(0, sh["ss"] + 1), None))
        for j, (es, ss, w) in enumerate(variants):
            src = render(sh, es, ss)
            c = Case("n%d.%d.%d" % (seed, i, j), ["new 0", "cs 0", "lib 0 -", "compile 0 %s %s" % (hx("n.nks"), hx(src)),
                                                  "pfin 0", "run 0 1000000 0 0 0 20", "mark probe", "recover 0",
                                                  "repl 0 %s" % hx(PROBE), "err 0", "fin 0", "del 0"])
            cases.append(c)
            info[c.id] = (i, rec, len(src), es + ss)
        C.count("nest_" + rec["verdict"])

    def jd(rec, evs):
        if not core.exit_ok(evs):
            return "crash", "did not survive: %s" % evs[-2:]
        main, rest = split(evs)
        comp = [e for e in main if e["ev"] == "compiled"][0]
        ran = [e for e in main if e["ev"] == "ran"]
        got = [norm(e) for e in main if norm(e) and e["ev"] == "call" and e["f"] == "print"]
        if comp["ok"]:
            if rec["verdict"] == "refuse":
                return "taken", "the compiler took a source that is too deep"
            if got != [norm(dict(ev="call", f="print", args=[V("i", rec["v"])]))] or ran[0]["n"]:
                return "value", "printed %s, specification says %d; %s" % (got, rec["v"], ran[0]["text"])
        else:
            if rec["verdict"] == "take":
                return "refused", "the compiler refused: %s" % ran[0]["text"]
            if not ran[0]["n"] or got:
                return "silent", "refused without an error, or ran: %s %s" % (ran[0], got)
            if "ecursion limit" not in ran[0]["text"]:
                return "reason", "refused for another reason: %s" % ran[0]["text"][:300]
        g = [norm(e) for e in rest if norm(e) is not None]
        if g != [norm(dict(ev="call", f="print", args=[V("s", s="probe"), V("i", 21), V("i", 1)]))]:
            return "after", "afterwards the session did not go on: %s" % rest[:4]
        return lang.del_ok(evs)
    out = core.run_cases(C.exe, cases, timeout=timeout)
    took = defaultdict(list)
    for c in cases:
        i, rec, n, d = info[c.id]
        evs = out.get(c.id, [])
        v = jd(rec, evs)
        if v:
            evs, _ = core.run_one(C.exe, c, timeout * 2)
            v = jd(rec, evs)
        if v:
            C.report(v[0], "%s (%d levels): %s" % (rec["sh"], d, v[1]), case_replay(Case(c.id, [l[:20000] for l in c.lines]), v[1]))
        else:
            took[i].append((d, any(e["ev"] == "compiled" and e["ok"] for e in evs), c))
        C.traces += 1
    for i, l in took.items():
        l.sort(key=lambda t: t[0])
        for a, b in zip(l, l[1:]):
            if b[1] and not a[1]:
                C.report("monotone", "takes %d levels but not %d" % (b[0], a[0]), case_replay(a[2]))
    C.count("nests", len(cases))
    return took
