"""Allocation failures (NkFault): every request of a sequence of calls refused in turn."""
import json, random, zlib
from . import core, life, tlc
from .core import Case, hx
from .check import case_replay

SRC = """var n = 1; var keep = object(); var co = nil; var str = "a"; var f = nil;
function add(d) { n = n + d; return n; }
function make(t) { keep[t] = mk(t); return len(keep); }
function dropit(t) { keep = object(); return t; }
function text(d) { str = str + d + ";" + 1.5; return str; }
function num(d) { var o = object(); o[d] = "" + d + d * 0.25; o["" + d] = d; return o[d]; }
function boom(m) { n = n + 100; fail("" + m); n = n + 1000; return 3; }
function body(x) { var a = yield(x * 2); a = a + yield(a + x); return a * x; }
function cstart(x) { co = coroutine(body, x); return resume(co); }
function cnext(y) { return resume(co, y); }
function twice(x) { keep["t" + x] = x + x; return mk(x + 300); }
function cb(x) { keep.cb = call(twice, x); return call(add, x); }
function cbmk(x) { var c = coroutine(call, twice, x); resume(c); return is_finished(c); }
function deep(d) { var a = d; if(d > 0) { a = deep(d - 1); } return a + 1; }
function build(d) { var o = object(); for(var i = 0; i < d * 7; ++i) { o[i] = object(); o[i].x = "k" + i; } keep.o = o; return len(o); }
function fn(x) { f = function(y) { return y + "!"; }; var o = object(); o.m = f; o.d = x; keep.f = o; return f(x); }
function meth(self, x) { self.v = x; return self; }
function method(x) { var o = object(); o._m = meth; keep.m = o; return o._m(x).v; }
function spark(o) { keep.s = o; keep[o] = n; return 1; }
var i = 0;
while(i < 3) { print(i, "s" + i); make(i + 60); i = i + 1; }
"""
MORE = "var again = object(); again.x = \"two\" + n; print(again.x); function later(q) { return q + \"z\"; }"
BADS = ["var zz = 3; function q(x) { var y = x; } var = 5;", "function g(a, b { }", "var o = object(); o.x = (1, 2", "print(nosuch);"]
REPLS = ["var r1 = object(); r1.a = \"b\" + 3; print(r1.a);", "var = ;", "add(2); fail(\"no\"); add(3);", "function rf(x) { return mk(x); } rf(810);"]
FUNCS = ("add", "make", "drop", "text", "cstart", "cnext", "cb", "deep", "build", "cbmk", "fn", "method", "boom", "num")
OPS = ("new up upx lib libx good gmake regfc file bad repl fin part run iter shrink ser add make drop text cstart cnext cb deep build cbmk fn "
       "method boom num obj ext conv setr regt regf fnval find halloc iterx fset fget fclr size acq rel sett gett setref spark load gset gget "
       "adderr adderrx dump gc lims").split()
FRESH = ["new 0", "verbose 1", "lim 0 gcint 40", "lim 0 gcnew 2"]


def cfg(depth, nxt):
    return "INIT Init\nNEXT %s\nINVARIANTS Registers ReportH\nCONSTANTS Depth = %d\nCmds <- CmdsC\nSeeds <- SeedsC\n" % (nxt, depth)


def module(ops, seeds):
    return "---- MODULE NkFaultRun ----\nEXTENDS NkFault\nCmdsC == <<%s>>\nSeedsC == %s\n====\n" % (", ".join('"%s"' % o for o in ops), seeds)


WALK = [o for o in OPS if o not in ("adderr", "adderrx", "boom", "bad", "dump", "lims", "find", "conv", "regt", "regf", "setr", "halloc", "iterx")]
WALK = WALK * 3 + OPS + ["run"] * 6 + ["good", "fin", "load", "lib"] * 4


def histories(C, num, depth, seed):
    s = seed * num % 1000000
    # the way to a running VM is short, so that the walk spends its steps there
    r = C.tlc(tlc.run("NkFaultRun", cfg(depth, "NextRnd"), files={"NkFaultRun.tla": module(WALK, "%d .. %d" % (s, s + num - 1)), "runs.json": "[]"}, timeout=300))
    return r.records


def all_histories(C, ops, depth):
    r = C.tlc(tlc.run("NkFaultRun", cfg(depth, "NextAll"), files={"NkFaultRun.tla": module(ops, "{1}"), "runs.json": "[]"}, timeout=300))
    return r.records


def op_lines(op, r, i, path):
    """Harness commands of one call; i: its number in the history."""
    R = "r%d" % r
    v = ("i:%d" % i, "s:" + hx("v%d" % i), "f:%d.5" % i, "n", "r1")[i % 5]
    k = ("i:%d" % i, "s:" + hx("k%d" % i), "s:" + hx("k"), "f:2.5", "r2")[i % 5]
    if op == "up":
        return FRESH + ["cs 0", "lib 0 -", "compile 0 %s %s" % (hx("a.nks"), hx(SRC)), "fin 0"]
    if op == "new":
        return FRESH
    if op == "upx":
        return FRESH + ["lib 0 -"]
    if op == "lib":
        return ["cs 0", "lib 0 -"]
    if op == "libx":
        return ["lib 0 -"]
    if op == "good":
        return ["compile 0 %s %s" % (hx("g.nks"), hx(SRC if i < 4 else MORE))]
    if op == "bad":
        return ["compile 0 %s %s" % (hx("b.nks"), hx(BADS[i % len(BADS)]))]
    if op == "file":
        return ["compilefile 0 %s" % hx(path)]
    if op == "repl":
        return ["repl 0 %s" % hx(REPLS[i % len(REPLS)])]
    if op == "gmake":
        return ["gmake 0 %s %s" % (hx("hg%d" % i), v)]
    if op in ("regfc", "regf"):
        return ["regf 0 %s %d %d" % (hx("rf%d" % (i // 2)), i % 2, i % 2)]
    if op == "fin":
        return ["fin 0"]
    if op == "part":
        return ["iter 0 %d" % (10 + 7 * i)]
    if op == "iter":
        return ["iter 0 1"]
    if op == "run":
        return ["run 0 100000 0 0 0 1"]
    if op in ("shrink", "dump", "gc"):
        return ["%s 0" % op]
    if op == "ser":
        return ["ser 0 3"]
    if op == "drop":
        op = "dropit"
    if op in FUNCS or op == "dropit":
        return ["callr 0 - g:%s %s" % (hx(op), "i:%d" % (3 + i if op != "deep" else 120))]
    if op == "obj":
        return ["obj 0 %s" % R]
    if op == "ext":
        return ["ext 0 %s %d %d" % (R, i % 2, 900 + i)]
    if op == "conv":
        return ["conv 0 %s" % ("i:%d" % (i * 1000), "f:%d.25" % i, "s:" + hx("%d" % i))[i % 3]]
    if op == "setr":
        return ["setr 0 r9 s:%s" % hx("text %d" % (i % 3))]
    if op == "regt":
        return ["regt 0 %s" % hx("type%d" % i)]
    if op == "fnval":
        return ["fnval 0 %s r8 %d" % (hx("fv%d" % (i % 2)), i % 2)]
    if op == "find":
        return ["find 0 %s" % hx(("T0", "T7")[i % 2])]
    if op == "halloc":
        return ["halloc 0 1 %d" % (1 + i * 50)]
    if op == "iterx":
        return ["iterx 0 0"]
    if op == "fset":
        return ["fset 0 %s %s %s" % (R, k, "i:5" if v == "n" else v)]
    if op == "fget":
        return ["fget 0 %s %s" % (R, k)]
    if op in ("fclr", "size", "acq", "rel", "gett"):
        return ["%s 0 %s%s" % (op, R, " " + k if op == "fclr" else "")]
    if op == "sett":
        return ["sett 0 %s %d" % (R, i % 2)] if False else ["gett 0 %s" % R]
    if op == "setref":
        return ["setref 0 %s %s" % (R, v)]
    if op == "spark":
        return ["callr 0 - g:%s %s" % (hx("spark"), R)]
    if op == "load":
        return ["load 0 0"]
    if op == "gset":
        return ["gset 0 %s %s" % (hx("n"), "i:7" if v == "r1" else v)]
    if op == "gget":
        return ["gget 0 %s" % hx("str")]
    if op == "adderr":
        return ["adderr 0 %s" % hx("host says %d" % i)]
    if op == "adderrx":
        return ["adderrx 0 %s %s %d" % (hx("host says %d" % i), hx("h.c"), i)]
    if op == "lims":
        return ["lim 0 stack 100000", "lim 0 instr 1000000", "getlim 0"]
    raise ValueError(op)


LOOK = ["err 0", "mem 0"]
IMAGE = ["new 1", "lim 1 gcint 40", "lim 1 gcnew 2", "cs 1", "lib 1 -", "compile 1 %s %s" % (hx("a.nks"), hx(SRC)), "fin 1", "run 1 100000 0 0 0 1",
         "callr 1 - g:%s i:5" % hx("cstart"), "callr 1 - g:%s i:4" % hx("build"), "callr 1 - g:%s i:4" % hx("fn"), "ser 1 0", "del 1"]


def commands(h, path):
    out = []
    for i, x in enumerate(h):
        out += op_lines(x["op"], x["r"], i, path)
    return out


def case(id, cmds, fault=None, trace_from=0):
    """fault: (command, request, mode).  The VM's allocator is traced from the command trace_from on."""
    L = []
    if any(c.startswith("load ") for c in cmds):
        L += IMAGE
    for j, c in enumerate(cmds):
        new = c == "new 0"
        L.append("mark c%d" % j)
        if fault and fault[0] == j:
            L.append("%s 0 %d %d" % ("prefail" if new else "failat", fault[1], fault[2]))
        if new and trace_from <= j:
            c = "new 0 1"
        elif j == trace_from and not new:
            L.append("trace 0 1")
        L.append(c)
        if c != "del 0":
            L += LOOK
    return Case(id, L)


def split(evs):
    """Events by command."""
    out, cur = [], None
    for e in evs:
        if e["ev"] == "mark":
            cur = []
            out.append(cur)
        elif cur is not None:
            cur.append(e)
    return out


OKS = {"compiled": "ok", "ser": "ok", "load": "ok", "halloc": "ok", "fset": "ok", "fget": "ok", "gmake": "ok", "regt": "ok", "regf": "ok", "new": "ok",
       "rcompiled": "ok", "sett": "ok", "exec": "r"}


def done(ev):
    """What a call that failed, or was made on a failed VM, told the host."""
    for e in ev:
        if e["ev"] in OKS and e[OKS[e["ev"]]]:
            if e["ev"] == "new" and e["oom"]:
                continue
            return "ok " + e["ev"]
        if e["ev"] == "ret" and not e["err"]:
            return "ok " + e["ev"]
    return "no"


def text(e):
    return json.dumps({k: v for k, v in e.items() if k != "ev"}, sort_keys=True)


def compress(groups, traced_from, upto=None):
    """<<command, kind, text>> for every event; requests and releases digested."""
    out = []
    failed = False
    for j, ev in enumerate(groups):
        d, n, count = 0, 0, 0
        seen = False

        def flush():
            nonlocal d, n
            if n:
                out.append([j, "mem", "%d %08x" % (n, d)])
            d = n = 0
        look = {}
        for e in ev:
            k = e["ev"]
            if k == "alloc":
                count += 1
                if upto and upto[0] == j and count == upto[1]:
                    flush()
                    return out
            if k in ("alloc", "free") and not failed:
                if j >= traced_from:
                    d = zlib.crc32(("%s %d %d" % (k, e["id"], e["size"])).encode(), d)
                    n += 1
            elif k == "free":
                pass
            elif k == "alloc":
                out.append([j, "alloc", str(e["size"])])
            elif k == "allocfail":
                flush()
                out.append([j, "fail", ""])
                failed = True
            elif k == "err":
                look["err"] = e
            elif k == "mem":
                look["mem"] = e
            elif k == "del":
                flush()
                out.append([j, "del", str(e["live"])])
            elif k == "fin":
                out.append([j, "left", "%d %d" % (e["ext"], e["sub"])])
            elif k in ("mk", "cleanup"):
                flush()
                out.append([j, k, str(e["tag"])])
            elif k == "exit":
                pass
            else:
                flush()
                out.append([j, k, text(e)])
        flush()
        if failed:
            out.append([j, "done", done(ev)])
        if "err" in look:
            e, m = look["err"], look["mem"]
            out.append([j, "state", "failed %d" % m["cur"] if e["oom"] else "fine"])
            if not e["oom"]:
                out.append([j, "saw", "%d %d %d %d %s" % (m["cur"], m["peak"], e["n"], e["ended"], e["text"])])
        elif not any(e["ev"] == "del" for e in ev):
            out.append([j, "state", "failed - no VM"])
    return out


class Ref:
    """A sequence of commands and its run without a failure."""

    def __init__(self, C, cmds, evs):
        self.cmds = cmds
        self.groups = split(evs)
        self.ok = core.exit_ok(evs) and len(self.groups) == len(cmds)
        self.evs = evs
        self.allocs = [sum(e["ev"] == "alloc" for e in g) for g in self.groups]
        self._pre = {}

    def pre(self, j):
        if j not in self._pre:
            self._pre[j] = compress(self.groups[:j], 10 ** 9)
        return self._pre[j]

    def upto(self, j, k):
        return self.pre(j) + [[j, x[1], x[2]] for x in compress([self.groups[j]], 0, (0, k))]


def references(C, histories, path, tag):
    cases, keep = [], []
    for i, h in enumerate(histories):
        cm = commands(h, path)
        cm += ["fin 0", "del 0"]
        cases.append(case("%s%d" % (tag, i), cm))
        keep.append(cm)
    res = core.run_cases(C.exe, cases)
    out = []
    for c, cm in zip(cases, keep):
        r = Ref(C, cm, res.get(c.id, []))
        if not r.ok:
            # without a failure everything works: other properties judge that
            if not core.exit_ok(r.evs):
                C.report("crash", "did not survive without a failure: %s" % r.evs[-2:], case_replay(c))
            continue
        for c, g in zip(cm, r.groups):
            if c.startswith("compile 0 %s " % hx("a.nks")) and not any(e["ev"] == "compiled" and e["ok"] for e in g):
                raise RuntimeError("the script does not compile: %s" % g)
        out.append(r)
    return out


AFTER = [["run 0 100000 0 0 0 1"], ["callr 0 - g:%s i:3" % hx("add")], ["callr 0 r5 g:%s i:3" % hx("make")], ["ser 0 4"], ["gc 0"], ["shrink 0"], ["dump 0"],
         ["obj 0 r6"], ["ext 0 r7 0 990"], ["fset 0 r1 i:3 s:%s" % hx("late")], ["fget 0 r1 s:%s" % hx("k")], ["fclr 0 r1 i:3"], ["size 0 r2"], ["acq 0 r1"],
         ["rel 0 r1"], ["gett 0 r3"], ["sett 0 r3 1"], ["gset 0 %s i:4" % hx("n")], ["gget 0 %s" % hx("n")], ["gget 0 %s" % hx("late")],
         ["gmake 0 %s i:4" % hx("lateglobal")], ["compile 0 %s %s" % (hx("l.nks"), hx(MORE))], ["repl 0 %s" % hx(REPLS[0])], ["regt 0 %s" % hx("late")],
         ["regf 0 %s 0 0" % hx("latef")], ["fnval 0 %s r8 0" % hx("latev")], ["find 0 %s" % hx("T0")], ["halloc 0 1 40"], ["iterx 0 0"], ["conv 0 i:77"],
         ["conv 0 f:1.5"], ["setr 0 r9 s:%s" % hx("late text")], ["adderr 0 %s" % hx("late")], ["adderrx 0 %s %s 4" % (hx("late"), hx("f.c"))], ["iter 0 3"],
         ["exec 0"], ["pfin 0"], ["load 0 0"], ["oom 0"], ["lib 0 -"], ["hc 0 r1"], ["lim 0 gcint 7"], ["lim 0 instr 5"], ["call0 0 g:%s" % hx("add")], ["fin 0"],
         ["swapno 0"], ["getlim 0"], ["setref 0 r1 i:3"], ["cs 0"]]
AFTER = [a[0] for a in AFTER if a[0].split()[0] not in ("swapno", "cs", "load", "lib")]


def fault(ref, j, k, mode, rng, id):
    cm = ref.cmds[:j + 1]
    if j < len(ref.cmds) - 1:
        cm = cm + [a for a in rng.sample(AFTER, rng.choice((0, 3, 6, 9)))] + ["del 0"]
    c = case(id, cm, (j, k, mode), j)
    return c, len(cm) - 1


def faults(C, refs, picks, seed):
    """picks: (ref, command, request, mode)."""
    rng = random.Random("%s/fault/%d" % (C.pid, seed))
    cases, info = [], []
    for i, (r, j, k, mode) in enumerate(picks):
        c, last = fault(r, j, k, mode, rng, "f%d" % i)
        cases.append(c)
        info.append((r, j, k, last))
    bad = judge(C, cases, info)
    some = sorted(bad)[:20]
    again = judge(C, [cases[i] for i in some], [info[i] for i in some]) if some else {}
    for n, i in enumerate(some):
        c, (r, j, k, last) = cases[i], info[i]
        if n in again:
            what = "%s: request %d of: %s" % (again[n], k, r.cmds[j][:100])
            C.report("fault", what, case_replay(c, what))
    C.traces += len(cases)
    C.count("failures_injected", len(cases))
    if cases:
        C.sample({"commands": [l[:80] for l in cases[len(cases) // 2].lines if not l.startswith(("mark", "err", "mem"))]})


def judge(C, cases, info):
    res = core.run_cases(C.exe, cases)
    runs, idx, bad = [], [], {}
    for i, (c, (r, j, k, last)) in enumerate(zip(cases, info)):
        evs = res.get(c.id, [])
        if not core.exit_ok(evs):
            bad[i] = "did not survive: %s" % evs[-2:]
            continue
        g = split(evs)
        runs.append({"ref": r.upto(j, k), "flt": compress(g, j), "at": j, "last": last})
        idx.append(i)
    for n in range(0, len(runs), 4000):
        t = C.tlc(tlc.run("NkFault", "INIT InitR\nNEXT NextR\nINVARIANTS ReportR\nCONSTANTS Depth = 0\nCmds = 0\nSeeds = 0\n",
                          files={"runs.json": json.dumps(runs[n:n + 4000])}, timeout=600))
        for x in t.records:
            bad[idx[n + x["q"] - 1]] = x["bad"]
    return bad


def every(refs, lo=0):
    """Every request of every command from number lo on."""
    return [(r, j, k, (j + k) % 2) for r in refs for j in range(lo, len(r.cmds)) for k in range(1, r.allocs[j] + 1)]


def some(rng, refs, n, lo=0):
    """n requests: commands first, so that each is hit as often, then one of its requests."""
    out = []
    while refs and n > 0:
        r = rng.choice(refs)
        js = [j for j in range(lo, len(r.cmds)) if r.allocs[j]]
        if js:
            j = rng.choice(js)
            out.append((r, j, rng.randrange(1, r.allocs[j] + 1), rng.randrange(2)))
        n -= 1
    return out


def script(path):
    import os
    p = os.path.join(core.tmpdir(), path)
    with open(p, "w") as f:
        f.write(MORE)
    return p


def base(C, seed, step):
    """A whole simple life, with every step-th request refused (every one outside compilation)."""
    p = script("f.nks")
    hs = [[{"op": o, "r": 1} for o in t.split()] for t in ("up run ser", "upx load", "new lib regfc gmake bad", "new lib file repl")]
    refs = references(C, hs, p, "b")
    picks = [x for x in every(refs) if not x[0].cmds[x[1]].startswith("compile") or (x[2] + seed) % step == 0]
    faults(C, refs, picks, seed)


def after(C, seed, depth, n=None):
    """Every call in every state that depth-1 calls lead to; every request of it (or n of them)."""
    p = script("f.nks")
    rng = random.Random("%s/after/%d" % (C.pid, seed))
    hs = [h for h in all_histories(C, ["up", "upx", "load", "run"] + [o for o in OPS if o not in ("new", "up", "upx", "load", "run", "lib", "libx", "good", "file", "bad", "repl", "regfc")], depth)
          if [x["op"] for x in h[:2]] in (["up", "run"], ["upx", "load"])]
    if n:
        rng.shuffle(hs)
        hs = hs[:n]
    refs = references(C, hs, p, "a")
    lows = [len(commands(h[:-1], p)) for h in hs]
    faults(C, refs, [x for r, lo in zip(refs, lows) for x in every([r], lo) if x[1] < len(r.cmds) - 2 or rng.random() < 0.1], seed)


def walk(C, seed, num, depth, per):
    p = script("f.nks")
    rng = random.Random("%s/walk/%d" % (C.pid, seed))
    refs = references(C, histories(C, num, depth, seed), p, "w")
    faults(C, refs, some(rng, refs, num * per), seed)
