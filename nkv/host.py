"""Host histories of NkHost replayed through the public API."""
import collections
from . import core, tlc
from .core import Case, hx
from .values import seen, key, token, V
from .check import case_replay

SCRIPT = """var ga; var gb = 0; var co = nil;
function sget(o, k) { return o[k]; }
function sset(o, k, v) { o[k] = v; return len(o); }
function smk(n) { var o = object(); o["#"] = n; return o; }
function sbody(o) { yield(0); return o; }
function spark(o) { co = coroutine(sbody, o); resume(co); return 0; }
function swake() { var c = co; co = nil; if(c == nil) return nil; return resume(c, 3); }
function seq(a, b) { return a == b; }
function shold(o) { hold(o); return hcount(o); }
function sdrop(o) { drop(o); return hcount(o); }
function sgc(o) { var l = object(); l.x = o; o = 0; gc(); return l.x; }
function stwo(t, p) { var k = object(); k[p] = 1; yield(1); return 0; }
function sgc2(o, p) { var c = coroutine(stwo, 0, p); resume(c); p = 0; var f = object(); f[o] = c; gc(); resume(c); return o; }
"""

KINDS = {
    "handles": "obj obj ext ext acq acq rel rel xrel hc gc gc gset gget gget link setref shold sdrop sgc fget spark swake shrink swap drop",
    "fields": "obj smk fset fset fset sset sset sset fget sget have have have fclr drop size size acq gget gset gc seq link",
    "gc": "obj ext ext smk link link setref gc gc gset gget acq rel have drop spark swake sgc sgc2 gset setref",
    "limits": "obj smk ext fset fset fset sset sset fset sset have have fclr drop drop size size gset gc limf limf limf link swap shrink",
    "globals": "obj ext gset gset gset gget gget gget fset sget gc swap shrink seq size",
    "images": "obj ext smk link fset sset acq acq gset gget swap swap swap have size hc setref gc spark swake gett shrink",
    "shrink": "obj ext smk link fset sset acq acq gset gget shrink shrink shrink have size hc setref gc spark swake drop swap",
    "teardown": "obj ext ext ext link setref acq gset gget gc gett spark swap rel sgc2",
}


def kinds(name):
    return "<<" + ", ".join('"%s"' % k for k in KINDS[name].split()) + ">>"


def cfg(depth, nreg, maxobj, rich, nxt):
    return "INIT Init\nNEXT %s\nINVARIANTS Laws Report\nCONSTANTS Depth = %d\nNReg = %d\nMaxObj = %d\nRich = %s\nKinds <- KindsC\nSeeds <- SeedsC\n" % (
        nxt, depth, nreg, maxobj, "TRUE" if rich else "FALSE")


def data(kn, seeds):
    return "---- MODULE NkHostRun ----\nEXTENDS NkHost\nKindsC == <<%s>>\nSeedsC == %s\n====\n" % (
        ", ".join('"%s"' % k for k in kn.split()), seeds)


def walks(C, name, num, depth, seed, nreg=4, maxobj=14, timeout=300):
    """num random walks of the given length through the commands of a kind, one per seed."""
    s = seed * num % 1000000
    r = C.tlc(tlc.run("NkHostRun", cfg(depth, nreg, maxobj, True, "NextRnd"),
                      files={"NkHostRun.tla": data(KINDS.get(name, name), "%d .. %d" % (s, s + num - 1))}, timeout=timeout))
    return r.records


def all_histories(C, kindlist, depth, nreg=2, maxobj=2, timeout=600):
    """Every history of the given length."""
    r = C.tlc(tlc.run("NkHostRun", cfg(depth, nreg, maxobj, False, "NextAll"),
                      files={"NkHostRun.tla": data(kindlist, "{1}")}, timeout=timeout))
    return r.records


def tok(v):
    if v["t"] == "r":
        return "r%d" % v["i"]
    return token(v)


H = hx("#")
FN = {n: "g:" + hx(n) for n in "sget sset smk spark swake seq shold sdrop sgc sgc2".split()}


def lines(h, gcstress=False, pad=0):
    L = ["new 0"]
    L += ["lim 0 gcint 1", "lim 0 gcnew 1"] if gcstress else ["lim 0 gcint 1000000000"]
    L += ["cs 0", "lib 0 -", "compile 0 %s %s" % (hx("h.nks"), hx(SCRIPT)), "fin 0", "run 0 1000000 0 0 0 1"]
    n = 0
    for st in h:
        c = st["c"]
        op, r, d = c["op"], "r%d" % c["r"], "r%d" % c["d"]
        k, v = tok(c["k"]) if c["k"]["t"] != "stale" else "n", tok(c["v"])
        L.append("mark s")
        if op == "obj":
            n += 1
            L += ["obj 0 " + r, "fset 0 %s s:%s i:%d" % (r, H, n)]
        elif op == "ext":
            n += 1
            L += ["ext 0 %s %d %d" % (r, c["d"], n), "fset 0 %s s:%s i:%d" % (r, H, n)]
        elif op == "smk":
            n += 1
            L += ["callr 0 %s %s i:%d" % (r, FN["smk"], n), "fget 0 %s s:%s" % (r, H)]
        elif op == "fset":
            L.append("fset 0 %s %s %s" % (r, k, v))
        elif op == "sset":
            L.append("callr 0 - %s %s %s %s" % (FN["sset"], r, k, v))
        elif op == "fget":
            L.append("fget 0 %s %s %s" % (r, k, d))
            if len(st["want"]) > 1:
                L.append("fget 0 %s s:%s" % (d, H))
        elif op == "sget":
            L.append("callr 0 %s %s %s %s" % (d, FN["sget"], r, k))
        elif op == "fclr":
            L.append("fclr 0 %s %s" % (r, k))
        elif op in ("size", "hc", "acq", "rel", "gett"):
            L.append("%s 0 %s" % (op, r))
        elif op in ("shold", "sdrop", "spark", "sgc"):
            L.append("callr 0 - %s %s" % (FN[op], r))
        elif op == "sgc2":
            L.append("callr 0 - %s %s %s" % (FN[op], r, v))
        elif op == "swake":
            L.append("callr 0 %s %s" % (d, FN[op]))
        elif op == "seq":
            L.append("callr 0 - %s %s %s" % (FN[op], r, v))
        elif op == "gset":
            L.append("gset 0 %s %s" % (hx(c["n"]), v))
        elif op == "gget":
            L.append("gget 0 %s %s" % (hx(c["n"]), d))
            if len(st["want"]) > 1:
                L.append("fget 0 %s s:%s" % (d, H))
        elif op == "setref":
            L.append("setref 0 %s %s" % (r, v))
        elif op == "gc":
            L.append("gc 0")
        elif op == "shrink":
            L.append("shrink 0")
        elif op == "swap":
            L.append("swap 0")
        elif op == "limf":
            L.append("lim 0 fields %d" % (c["d"] if c["d"] < 99 else 0xffffffff))
        if op in ("gc", "sgc", "sgc2"):
            L += ["iterx 0 0", "iterx 0 1"]
    return L + ["mark end", "err 0", "del 0"]


def vk(v):
    return key(seen(v))


def judge(h, evs):
    """None or (key, text): whether the events are what the history says."""
    if not core.exit_ok(evs):
        return "crash", "did not survive: %s" % evs[-2:]
    groups, cur = [], None
    cleaned = collections.Counter()
    for e in evs:
        if e["ev"] == "mark":
            cur = []
            groups.append(cur)
        elif cur is not None:
            cur.append(e)
    if len(groups) != len(h) + 1:
        return "garbled", "%d of %d steps" % (len(groups), len(h))
    dead = collections.Counter()
    nnat, er = 0, False
    for i, (st, ev) in enumerate(zip(h, groups)):
        c, w = st["c"], st["want"]
        op = c["op"]

        def bad(k, t):
            return k, "step %d, %s: %s" % (i + 1, show(c), t)
        for e in ev:
            if e["ev"] in ("serfail", "loadfail", "loadshort", "oldleak", "badcmd", "flood"):
                return bad(e["ev"], str(e))
            if e["ev"] == "cleanup":
                cleaned[e["tag"]] += 1
                if cleaned[e["tag"]] > 1:
                    return bad("twice", "native object %d cleaned up twice" % e["tag"])
        rest = [e for e in ev if e["ev"] != "cleanup"]
        if op == "ext":
            nnat += 1
        refused = op in ("fset", "sset") and w and w[0]["t"] == "err"
        if op == "rel" and w[0]["t"] == "err" or refused:
            er = True
        for e in rest:
            if e.get("err") and not er:
                return bad("error", "reported an error: %s" % e)

        def expect(j, name, v, field="v"):
            if j >= len(rest) or rest[j]["ev"] != name:
                return "%s expected, got %s" % (name, rest[j:j + 1])
            got = vk(rest[j][field]) if isinstance(rest[j][field], dict) else rest[j][field]
            want = vk(v) if isinstance(v, dict) else v
            if got != want:
                return "got %s, specification says %s" % (got, want)
            return None
        t = None
        if refused:
            if len(rest) != 1 or not rest[0].get("err"):
                t = "the limit on fields was not reported: %s" % rest
        elif op in ("fget", "gget"):
            t = expect(0, op, w[0])
            if not t and len(w) > 1:
                t = expect(1, "fget", w[1])
        elif op == "smk":
            t = expect(0, "ret", w[0]) or expect(1, "fget", w[1])
        elif op in ("sset", "sget", "shold", "sdrop", "spark", "swake", "seq"):
            t = expect(0, "ret", w[0])
        elif op in ("size", "hc", "acq", "rel"):
            t = expect(0, op, w[-1]["i"], "n")
            if not t and op == "rel" and rest[0]["err"] != er:
                t = "error %s" % rest[0]["err"]
        elif op == "gett":
            t = expect(0, "gett", {-1: "<none>", 0: "T0", 1: "T1"}[w[0]["i"]], "name") if w[0]["i"] >= 0 else None
        elif op in ("fset", "gset"):
            t = expect(0, op, 1, "ok")
        elif op in ("gc", "sgc", "sgc2"):
            if [e["ev"] for e in rest[:1]] != ["gc"]:
                t = "no collection: %s" % rest
            for x in w[0]["gone"]:
                dead[x] += 1
            if not t and dead != cleaned:
                return bad("gc", "native objects cleaned up so far: %s; specification says %s" % (sorted(cleaned), sorted(dead)))
            if not t and op != "gc":
                t = expect(1, "ret", w[1])
            j = 1 if op == "gc" else 2
            for ty in (0, 1):
                if not t and sorted(rest[j + ty].get("tags", [])) != sorted(w[0]["t%d" % ty]):
                    t = "objects of type %d: %s, specification says %s" % (ty, rest[j + ty], w[0]["t%d" % ty])
        elif op == "swap":
            t = expect(0, "swap", 1, "ok")
        if t:
            return bad(op, t)
    tail = groups[-1]
    for e in tail:
        if e["ev"] == "err" and bool(e["n"]) != er:
            return "error", "errors at the end: %s" % e["text"]
        if e["ev"] == "cleanup":
            cleaned[e["tag"]] += 1
        if e["ev"] == "del" and (e["live"] or e["bytes"]):
            return "leak", "deleting the VM left %d blocks" % e["live"]
        if e["ev"] == "fin" and (e["ext"] or e["sub"]):
            return "native leak", "%d native objects, %d subsystems never cleaned up" % (e["ext"], e["sub"])
    if any(n != 1 for n in cleaned.values()) or sum(cleaned.values()) != nnat:
        return "teardown", "cleanups: %s for %d native objects" % (dict(cleaned), nnat)
    subs = sum(1 for e in tail if e["ev"] == "subclean")
    if subs != 1:
        return "subsystem", "subsystem cleanup called %d times" % subs
    return None


def show(c):
    f = lambda v: "r%d" % v["i"] if v["t"] == "r" else "%s:%s%s" % (v["t"], v["i"], v["s"])
    return "%s r%d d%d %s %s %s" % (c["op"], c["r"], c["d"], f(c["k"]), f(c["v"]), c["n"])


def replay(C, hs, stress=(False, True), tag="h"):
    cases, info = [], {}
    for i, h in enumerate(hs):
        for s in stress:
            c = Case("%s%d%s" % (tag, i, "s" if s else ""), lines(h, s))
            cases.append(c)
            info[c.id] = h
    res = core.run_cases(C.exe, cases)
    for c in cases:
        v = judge(info[c.id], res.get(c.id, []))
        if v:
            evs, _ = core.run_one(C.exe, c)
            v = judge(info[c.id], evs)
        if v:
            C.report(v[0], v[1], dict(case_replay(c, v[1]), history=[show(s["c"]) for s in info[c.id]]))
        C.traces += 1
    C.count("host_histories", len(hs))
    if hs:
        C.sample([show(s["c"]) for s in hs[len(hs) // 2]])


def check(C, name, num, depth, seed):
    """num random histories of a kind."""
    replay(C, walks(C, name, num, depth, seed), tag="w%d" % (seed % 10000))


def check_all(C, kindlist, depth, nreg=2, maxobj=2):
    """Every history of the given length over a few commands."""
    hs = all_histories(C, kindlist, depth, nreg, maxobj)
    C.count("exhaustive_histories", len(hs))
    replay(C, hs, stress=(False,), tag="x")
