"""Lives of several VMs (NkLife) replayed through the public API."""
from . import core, tlc
from .core import Case, hx
from .check import case_replay

ONE = """var n = 0; var keep = object(); var co = nil; var str = "";
function add(d) { n = n + d; return n; }
function make(t) { keep[t] = mk(t); return len(keep); }
function dropit(t) { keep[t] = nil; return len(keep); }
function text(d) { str = str + d + ";"; return str; }
function boom(m) { n = n + 100; fail(m); n = n + 1000; return 3; }
function body(x) { var a = yield(x * 2); a = a + yield(a + x); return a * x; }
function cstart(x) { co = coroutine(body, x); return resume(co); }
function cnext(y) { return resume(co, y); }
for(var i = 0; i < 40; ++i) { print(i); n = n + 1; }
"""
TWO = """var m = 0; print("two");
function mul(d) { add(0 - d); m = m + 1; return n * d; }
"""
BAD = "var zz = 3; function q(x) { var y = x; } var = 5;"
LAST = 15  # scratch image

KINDS = {
    "mixed": "new lib libx good good2 fin up up upx part part run run add add make make text hmake drop cstart cnext cnext "
             "boom adderr gc gc shrink ser ser load load cut bare gset gget lim ud del bad mul",
    "teardown": "new lib libx good bad fin up up upx part run run make make make hmake hmake drop gc boom adderr oom ser load cut bare del del",
    "images": "up up upx upx part run run add make make text hmake drop cstart cnext cnext gc shrink ser ser load load load cut del gset lim boom",
    "many": "up up upx part part run run add add make text drop cstart cnext gset gget gc ser load lim ud mul",
}


def cfg(depth, nv, nb, rich, nxt):
    return ("INIT Init\nNEXT %s\nINVARIANTS Laws Report\nPROPERTY Independent\nCONSTANTS Depth = %d\nNV = %d\nNB = %d\nRich = %s\n"
            "Kinds <- KindsC\nSeeds <- SeedsC\n") % (nxt, depth, nv, nb, "TRUE" if rich else "FALSE")


def data(kn, seeds):
    return "---- MODULE NkLifeRun ----\nEXTENDS NkLife\nKindsC == <<%s>>\nSeedsC == %s\n====\n" % (
        ", ".join('"%s"' % k for k in kn.split()), seeds)


def walks(C, name, num, depth, seed, nv=3, nb=2, timeout=300):
    s = seed * num % 1000000
    r = C.tlc(tlc.run("NkLifeRun", cfg(depth, nv, nb, True, "NextRnd"),
                      files={"NkLifeRun.tla": data(KINDS.get(name, name), "%d .. %d" % (s, s + num - 1))}, timeout=timeout))
    return r.records


def all_lives(C, kindlist, depth, nv=1, nb=1, timeout=600):
    r = C.tlc(tlc.run("NkLifeRun", cfg(depth, nv, nb, False, "NextAll"),
                      files={"NkLifeRun.tla": data(kindlist, "{1}")}, timeout=timeout))
    return r.records


def lines(h, nv):
    L, on = [], [False] * nv
    quiet = ["lim %d gcint 1000000000"]
    for st in h:
        c = st["c"]
        op, v, b, i = c["op"], c["v"] - 1, c["b"], c["i"]
        fn = lambda n: "g:" + hx(n)
        call = lambda n, *a: "callr %d - %s %s" % (v, fn(n), " ".join(a))
        it = "i:%d" % i
        tags = st["want"]["i"]
        L.append("mark s")
        on[v] = True
        if op == "new":
            L += ["new %d" % v, quiet[0] % v]
        elif op == "lib":
            L += ["cs %d" % v, "lib %d -" % v]
        elif op == "libx":
            L.append("lib %d -" % v)
        elif op == "up":
            L += ["new %d" % v, quiet[0] % v, "cs %d" % v, "lib %d -" % v, "compile %d %s %s" % (v, hx("one.nks"), hx(ONE)), "fin %d" % v]
        elif op == "upx":
            L += ["new %d" % v, quiet[0] % v, "lib %d -" % v]
        elif op in ("good", "good2", "bad"):
            L.append("compile %d %s %s" % (v, hx(op + ".nks"), hx({"good": ONE, "good2": TWO, "bad": BAD}[op])))
        elif op == "fin":
            L.append("fin %d" % v)
        elif op == "part":
            L.append("run %d %d 0 0 0 1" % (v, i))
        elif op == "run":
            L.append("run %d 100000 0 0 0 1" % v)
        elif op in ("add", "mul", "text", "cstart", "cnext"):
            L.append(call(op, it))
        elif op == "make":
            L.append(call(op, "i:%d" % st["tag"]))
        elif op == "hmake":
            L.append("ext %d r%d 1 %d" % (v, v, tags))
        elif op == "drop":
            L.append(call("dropit", it))
        elif op == "boom":
            L.append(call("boom", "s:" + hx(st["msg"])))
        elif op == "adderr":
            L.append("adderr %d %s" % (v, hx(st["msg"])))
        elif op == "ser":
            L += ["ser %d %d" % (v, b), "ser %d %d" % (v, LAST), "cmpbuf %d %d" % (b, LAST)]
        elif op == "load":
            L.append("load %d %d" % (v, b))
        elif op == "cut":
            L.append("load %d %d %d" % (v, b, i))
        elif op == "gset":
            L.append("gset %d %s %s" % (v, hx("n"), it))
        elif op == "gget":
            L.append("gget %d %s" % (v, hx("n")))
        elif op == "lim":
            L += ["lim %d fields %d" % (v, st["look"]["fl"]), "lim %d stack %d" % (v, st["look"]["sk"])]
        elif op == "ud":
            L.append("ud %d %d" % (v, st["look"]["ud"]))
        elif op in ("oom", "gc", "shrink", "del"):
            if op == "del" and not st["look"]["oom"]:
                L.append("fin %d" % v)    # a compiler has to be finalised before its VM is deleted
            L.append("%s %d" % (op, v))
            on[v] = op != "del"
        else:
            raise ValueError(op)
        L.append("mark l")
        for w in range(nv):
            if on[w]:
                L += ["mark v%d" % w, "mem %d" % w, "err %d" % w, "getud %d" % w, "getlim %d" % w]
    L.append("mark d")
    for w in range(nv):
        L += ["mark v%d" % w, "fin %d" % w, "del %d" % w]
    return L


def prepare(h):
    """What a step needs from the specification's state: new tags and messages."""
    nt = 1
    for st in h:
        op, w = st["c"]["op"], st["want"]
        if op == "make":
            st["tag"] = nt
        if op in ("boom", "adderr"):
            st["msg"] = st["look"]["errs"][-1]
        if op in ("hmake", "adderr", "boom", "lim", "ud") or (op == "make" and w["k"] != "err"):
            nt += 1
    return h


def judge(h, evs, nv):
    if not core.exit_ok(evs):
        return "crash", "did not survive: %s" % evs[-2:]
    groups = []
    for e in evs:
        if e["ev"] == "mark":
            groups.append((e["m"], []))
        elif groups:
            groups[-1][1].append(e)
    g = iter(groups)
    prog, bprog = {}, {}          # prints of the main program so far, by VM and by image
    mem, over = {}, None
    loose = set()                 # VMs after a refused load
    has2, b2 = {}, {}             # whether the second script is there
    for i, st in enumerate(h):
        c, w = st["c"], st["want"]
        op, v = c["op"], c["v"] - 1

        def bad(k, t):
            return k, "step %d, %s: %s" % (i + 1, show(c), t)
        m, ev = next(g)
        if m != "s":
            return "garbled", str(m)
        for e in ev:
            if e["ev"] in ("oldleak", "serfail", "badcmd", "flood"):
                return bad(e["ev"], str(e))
        cleaned = sorted(e["tag"] for e in ev if e["ev"] == "cleanup")
        subs = [e for e in ev if e["ev"] == "subclean"]
        rest = [e for e in ev if e["ev"] not in ("cleanup", "subclean", "mk")]
        ret = next((e for e in rest if e["ev"] == "ret"), None)
        # native objects freed
        if v in loose:
            # after a refused load: whatever had been read, each once
            if len(set(cleaned)) != len(cleaned):
                return bad("cleanup", "cleaned up %s" % cleaned)
        elif op in ("load", "cut") and w["i"] == 0:
            pass
        elif cleaned != sorted(st["gone"]):
            return bad("cleanup", "native objects cleaned up: %s; specification says %s" % (cleaned, sorted(st["gone"])))
        if op == "del":
            d = next(e for e in rest if e["ev"] == "del")
            if d["live"] or d["bytes"]:
                return bad("leak", "deletion left %d blocks" % d["live"])
            if len(subs) != w["i"]:
                return bad("subsystem", "subsystem cleanup called %d times, expected %d" % (len(subs), w["i"]))
            for x in (prog, mem, has2):
                x.pop(v, None)
            loose.discard(v)
        elif subs:
            return bad("subsystem", "subsystem cleaned up before deletion")
        # results
        if op in ("good", "good2", "bad"):
            e = next(e for e in rest if e["ev"] == "compiled")
            if e["ok"] != w["i"]:
                return bad("compile", str(e))
            if op == "good2":
                has2[v] = 1
        elif op in ("up", "new"):
            prog[v] = 0
        if op in ("part", "run"):
            p = prog.get(v, 0)
            full = [("i", k) for k in range(40)] + ([("s", "two")] if has2.get(v) else [])
            have = [norm(x["args"][0]) for x in rest if x["ev"] == "call"]
            if st["look"]["errs"] or st["look"]["oom"]:
                if have:
                    return bad("effects", "a VM with an error ran: %s" % have[:3])
            else:
                if have != full[p:p + len(have)] or (op == "run" and p + len(have) != len(full)):
                    return bad("effects", "after %d effects: %s" % (p, have[:6]))
                prog[v] = p + len(have)
        elif op in ("add", "mul", "text", "cstart", "cnext", "make", "drop", "boom"):
            if ret is None:
                return bad("ret", "no return")
            t = ret["v"]
            if w["k"] == "err":
                if not ret["err"]:
                    return bad("ret", "no error: %s" % ret)
                if op == "make" and any(e["ev"] == "mk" for e in ev):
                    return bad("effects", "a call ran in a VM with an error")
            elif ret["err"] or t["t"] != w["k"] or (t["i"] != w["i"] if w["k"] == "i" else t["s"] != w["s"]):
                return bad("ret", "got %s, specification says %s" % (ret, w))
        elif op in ("gget", "gset"):
            e = rest[0]
            if op == "gget" and (e["v"]["t"] != "i" or e["v"]["i"] != w["i"]):
                return bad("global", "got %s, specification says %s" % (e, w["i"]))
        elif op == "ser":
            if not rest[0]["ok"] or not rest[1]["ok"] or not rest[2]["eq"]:
                return bad("ser", str(rest))
            bprog[c["b"]] = prog.get(v, 0)
            b2[c["b"]] = has2.get(v)
        elif op in ("load", "cut"):
            e = rest[0]
            if w["i"] == 1:
                if not e["ok"] or e["left"]:
                    return bad("load", str(e))
                prog[v], has2[v] = bprog[c["b"]], b2[c["b"]]
            else:
                if e["ok"]:
                    return bad("refuse", "an unusable image was loaded: %s" % e)
                loose.add(v)
        # everything the host can see of every VM
        m, _ = next(g)
        seenv = {}
        n = sum(1 for w2 in range(nv) if w2 in mem or (w2 == v and op != "del"))
        for _ in range(n):
            m, ev = next(g)
            seenv[int(m[1:])] = ev
        for u, ev in seenv.items():
            me, er, ud, li = ev[0], ev[1], ev[2], ev[3]
            now = (me["cur"], me["peak"], er["n"], er["has"], er["oom"], er["ended"], er["text"], ud["v"],
                   tuple(li[x] for x in ("mem", "stack", "fields", "gcint", "gcnew", "instr")))
            if u != v:
                if now != mem[u]:
                    return bad("other", "VM %d changed from %s to %s" % (u, mem[u], now))
            else:
                L = st["look"]
                if ud["v"] != L["ud"] or li["fields"] != L["fl"] or li["stack"] != L["sk"]:
                    return bad("settings", "%s %s, specification says %s" % (ud, li, L))
                if er["oom"] != (1 if L["oom"] else 0):
                    return bad("oom", str(er))
                if not L["oom"] and not v in loose:
                    if er["n"] != len(L["errs"]):
                        return bad("errors", "%s, specification says %s" % (er["text"], L["errs"]))
                    lines_ = er["text"].split("\n")
                    for t, x in zip(lines_, L["errs"]):
                        if x not in t:
                            return bad("errors", "%s, specification says %s" % (er["text"], L["errs"]))
            if me["cur"] > me["peak"]:
                return bad("mem", str(me))
            off = me["bytes"] - me["cur"]
            if over is None:
                over = off
            if off != over:
                return bad("mem", "accounted %d of %d bytes" % (me["cur"], me["bytes"]))
            mem[u] = now
        if op == "del":
            mem.pop(v, None)
    for m, ev in g:
        for e in ev:
            if e["ev"] == "del" and (e["live"] or e["bytes"]):
                return "leak", "deletion at the end left %d blocks" % e["live"]
            if e["ev"] == "fin" and (e["ext"] or e["sub"]):
                return "native leak", "%d native objects, %d subsystems never cleaned up" % (e["ext"], e["sub"])
    return None


def norm(a):
    return ("i", a["i"]) if a["t"] == "i" else ("s", a["s"])


def show(c):
    return "%s vm%d b%d %d" % (c["op"], c["v"], c["b"], c["i"])


def replay(C, hs, nv, tag="l"):
    cases, info = [], {}
    for i, h in enumerate(hs):
        prepare(h)
        c = Case("%s%d" % (tag, i), lines(h, nv))
        cases.append(c)
        info[c.id] = h
    res = core.run_cases(C.exe, cases)
    for c in cases:
        v = judge(info[c.id], res.get(c.id, []), nv)
        if v:
            evs, _ = core.run_one(C.exe, c)
            v = judge(info[c.id], evs, nv)
        if v:
            C.report(v[0], v[1], dict(case_replay(c, v[1]), history=[show(s["c"]) for s in info[c.id]]))
        C.traces += 1
    C.count("lives", len(hs))
    if hs:
        C.sample([show(s["c"]) for s in hs[len(hs) // 2]])


def check(C, name, num, depth, seed, nv=3, nb=2):
    replay(C, walks(C, name, num, depth, seed, nv, nb), nv, "l%d" % (seed % 10000))


def check_all(C, kindlist, depth, nv=1, nb=1):
    hs = all_lives(C, kindlist, depth, nv, nb)
    C.count("exhaustive_lives", len(hs))
    replay(C, hs, nv, "x")
