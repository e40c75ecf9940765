"""Memory accounting and limits (NkMem): traces of the real allocator."""
import json, random
from . import core, gen, host, idioms, lang, life, progs, tlc
from .core import Case, hx
from .check import case_replay

CFG = "INIT %s\nNEXT %s\nINVARIANTS %s\n%sCONSTANTS MaxId = %d\nMaxSize = %d\nMaxLim = %d\n"


def machine(C):
    n = (5, 3, 7) if C.thorough else (4, 3, 5)
    C.tlc(tlc.run("NkMem", CFG % (("Init", "Next", "Exact Peak Gone", "PROPERTIES Within OnlyThen\n") + n), files={"traces.json": "[]"}))


def looks(L):
    """The usage is asked for after every command."""
    out = []
    for l in L:
        if l.startswith("run 0 "):
            w = l.split(" ")
            for k in range(12):
                out += ["run 0 %d %s %s 0 %d" % (1 if k % 3 else 7, w[3], w[4], 20), "mem 0"]
        out.append(l)
        if l.split(" ")[0] not in ("del", "err", "mark") and l.split(" ")[1] == "0":
            out.append("mem 0")
    return out


def bodies(C, rng, num):
    """Command lists of VM 0 (traced), of several kinds."""
    out = []
    hs = host.walks(C, "gc", num // 4 + 1, 12, rng.randrange(1000)) + host.walks(C, "globals", num // 8 + 1, 12, rng.randrange(1000))
    rng.shuffle(hs)
    for k in range(num):
        kind = ("prog", "prog", "host", "load", "cut", "bad")[k % 6]
        if kind == "host" and hs:
            L = [("ser 0 1" if l == "swap 0" else l) for l in host.lines(hs.pop())]
            L[0] = "new 0 1"
        else:
            prof = rng.choice(("core", "calls", "coro", "objects", "gc", "strings", "native", "errors", "mixed"))
            g = idioms.make(rng, prof, 4, rng.choice((1, 2)), True) if rng.random() < 0.5 else progs.make(rng, prof, 14, rng.choice((1, 2)), 0)
            g.host = []
            if isinstance(g, gen.Gen):
                g.hoststeps(3)
            else:
                g.hoststeps(3, rng)
            pre = rng.choice(((), ("lim 0 gcint 5", "lim 0 gcnew 1"), ("lim 0 gcint 50", "lim 0 gcnew 4")))
            c = lang.case(g, "x", pre=pre, slice=1000000, gc=rng.choice((0, 0, 2)), shrink=rng.choice((0, 0, 3)), maxslices=500)
            L = list(c.lines)
            at = len(L) - 2
            L[at:at] = rng.choice(([], ["ser 0 1"], ["ser 0 1 40", "gc 0"], ["shrink 0", "gc 0", "ser 0 1"], ["adderr 0 " + hx("boo!")]))
            if kind in ("load", "cut"):
                # the image comes from another VM
                cut = next(i for i, l in enumerate(L) if l.startswith("run "))
                A = [progs.retarget(l, 1) for l in L[:cut]] + ["run 1 %d 0 0 0 1" % rng.choice((0, 5, 40, 200, 100000)), "ser 1 1", "fin 1", "del 1"]
                B = ["mark traced", "new 0 1"] + list(pre) + ["lib 0 -"]
                if kind == "load":
                    B += ["load 0 1"] + L[cut:]
                else:
                    B += ["load 0 1 %d" % rng.choice((3, 30, 100, 300, 700, 1200, 2000)), "err 0", "del 0"]
                L = A + B
            else:
                L[0] = "new 0 1"
            if kind == "bad":
                at = next(i for i, l in enumerate(L) if l.startswith("fin "))
                L.insert(at, "compile 0 %s %s" % (hx("bad.nks"), hx(rng.choice((life.BAD, "var o = object(); o.x = [1, 2", "function f(a, b { }",
                                                                                "for(var i = 0; i < 3", "\"x\" \"y\" + ;", "var v = function(q) { return q +; };")))))
        if sum(len(l) for l in L) < 60000:
            out.append(looks(L))
    return out


def trace(evs):
    """Segments of one run of a case, and whether the VM failed."""
    segs, e, oom, other = [], [], 0, None
    for x in evs:
        k = x["ev"]
        if k == "mark" and x["m"] == "traced":
            segs, e = [], []
        elif k == "alloc":
            e.append([1, x["id"], x["size"]])
        elif k == "free":
            e.append([2, x["id"], x["size"]])
        elif k == "mem":
            segs.append({"e": e, "cur": x["cur"], "peak": x["peak"], "kind": "look"})
            e = []
        elif k == "err":
            oom = x["oom"]
        elif k == "del":
            if x["live"] or x["bytes"]:
                other = other or ("leak", "deletion left %d blocks" % x["live"])
            segs.append({"e": e, "cur": 0, "peak": 0, "kind": "del"})
            e = []
        elif k in ("foreign", "oldleak", "garbled", "badcmd"):
            other = other or (k, str(x))
        elif k == "fin" and (x["ext"] or x["sub"]):
            other = other or ("native leak", str(x))
    if not core.exit_ok(evs):
        other = ("crash", "did not survive: %s" % evs[-2:])
    return segs, oom, other


def place(L, rng):
    """Where a limit can be set: after the creation of VM 0, before its deletion; (line, segments before)."""
    ok, segs = [], 0
    made = False
    for i, l in enumerate(L):
        if l.startswith("new 0"):
            made = True
        elif l == "err 0":
            break
        if made and l == "mem 0":
            segs += 1
            ok.append((i + 1, segs))
    r = rng.random()
    return ok[0] if r < 0.5 else rng.choice(ok)


def limits(segs, frm, rng, n):
    """Limits worth trying: at and just below the requests that set records."""
    size, cur, best, recs = {}, 0, -1, []
    for k, s in enumerate(segs):
        if s["kind"] == "del":
            break
        if k == frm:
            best = cur
        for t, i, z in s["e"]:
            if i == 1:
                continue
            if t == 1:
                size[i] = z
                cur += z
                if k >= frm and cur > best:
                    best = cur
                    recs.append(cur)
            else:
                cur -= size.pop(i)
    out = set()
    for _ in range(n):
        if recs and rng.random() < 0.9:
            out.add(rng.choice(recs) + rng.choice((-1, -1, 0, 0, 1)))
        else:
            out.add(rng.randrange(0, max(best, 1) + 2))
    return sorted(out)


def check(C, seed, num, per, cap=9000):
    rng = random.Random("%s/mem/%d" % (C.pid, seed))
    base = bodies(C, rng, num)
    refs = [Case("r%d" % i, L) for i, L in enumerate(base)]
    res = core.run_cases(C.exe, refs)
    cases, traces = [], []
    for c in refs:
        segs, oom, other = trace(res.get(c.id, []))
        if sum(len(s["e"]) for s in segs) > cap:
            continue
        r = len(traces) + 1
        cases.append((c, None))
        traces.append({"segs": segs, "lim": -1, "from": 1, "ref": 0, "oom": oom, "other": other})
        line, frm = place(c.lines, rng)
        for l in limits(segs, frm, rng, per):
            L = c.lines[:line] + ["lim 0 mem %d" % l] + c.lines[line:]
            cases.append((Case("%s.%d" % (c.id, l), L), l))
            traces.append({"lim": l, "from": frm + 1, "ref": r, "other": None})
    lim = [c for c, l in cases if l is not None]
    res = core.run_cases(C.exe, lim)
    for (c, l), t in zip(cases, traces):
        if l is not None:
            t["segs"], t["oom"], t["other"] = trace(res.get(c.id, []))
    bad = {}
    for i, t in enumerate(traces):
        if t["other"]:
            bad[i] = t["other"]
    for q, at, why in validate(C, traces):
        bad.setdefault(q, ("memory", why + (" (segment %d)" % at if at else "")))
    for i, (k, why) in sorted(bad.items()):
        c, l = cases[i]
        # again, on its own
        j = traces[i]["ref"]
        tt = []
        for cc, t in ([(cases[j - 1][0], traces[j - 1])] if j else []) + [(c, traces[i])]:
            segs, oom, other = trace(core.run_one(C.exe, cc)[0])
            tt.append(dict(t, segs=segs, oom=oom, other=other, ref=1 if t["ref"] else 0))
        again = tt[-1]["other"] or next(("memory", w) for q, at, w in validate(C, tt)) if (tt[-1]["other"] or validate(C, tt)) else None
        if again:
            C.report(again[0], "%s%s" % (again[1], "" if l is None else ", limit %d" % l), case_replay(c, again[1]))
    C.traces += len(traces)
    C.count("allocator_events", sum(len(s["e"]) for t in traces for s in t["segs"]))
    C.count("limited_runs", len(lim))
    C.count("limited_runs_that_failed", sum(t["oom"] for t in traces if t["ref"]))
    if cases:
        C.sample({"commands": [l[:80] for l in cases[0][0].lines[:10]], "events": traces[0]["segs"][1]["e"][:8]})


def validate(C, traces):
    ts = []
    for t in traces:
        n, segs = 0, []
        for s in t["segs"]:
            n += len(s["e"])
            segs.append({"n": n, "cur": s["cur"], "peak": s["peak"], "kind": s["kind"]})
        ts.append({"e": [x for s in t["segs"] for x in s["e"]], "segs": segs,
                   "lim": t["lim"], "from": t["from"], "ref": t["ref"], "oom": t["oom"]})
    r = C.tlc(tlc.run("NkMem", CFG % ("InitT", "NextT", "Report TotalT", "", 1, 1, 1), files={"traces.json": json.dumps(ts)}, timeout=300))
    return [(x["q"] - 1, x["at"], x["bad"]) for x in r.records]


def default_vm(C):
    """A VM with the default allocation functions gives everything back; script files are read (or refused) whole."""
    import os
    d = core.tmpdir()
    ok = os.path.join(d, "ok.nks")
    open(ok, "w").write("var a = 1; print(a + 1);\n")
    open(os.path.join(d, "empty.nks"), "w").close()
    cases = [Case("d%d" % i, ["newd 0", "cs 0", "lib 0 -", "compilefile 0 %s" % hx(p), "fin 0", "run 0 100 0 0 0 5", "native 0", "del 0", "native 0"])
             for i, p in enumerate((ok, os.path.join(d, "empty.nks"), d, os.path.join(d, "none.nks")))]
    cases += [Case("e%d" % i, [("new 0" if l == "newd 0" else l) for l in c.lines]) for i, c in enumerate(cases)]
    res = core.run_cases(C.exe, cases)
    for i, c in enumerate(cases):
        evs = res.get(c.id, [])
        n = [e["live"] for e in evs if e["ev"] == "native"]
        comp = next((e for e in evs if e["ev"] == "compiled"), None)
        want = 1 if i % 4 < 2 else 0
        why = None
        if not core.exit_ok(evs):
            why = "did not survive: %s" % evs[-2:]
        elif n[-1] or (i < 4 and n[0] <= 0) or (i >= 4 and (n[0] or any(e["ev"] == "foreign" for e in evs))):
            why = "blocks of the process's heap: %s" % n
        elif comp["ok"] != want:
            why = str(comp)
        if why:
            C.report("default", why, case_replay(c, why))
        C.traces += 1
