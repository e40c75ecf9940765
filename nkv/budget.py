"""Instruction budgets (NkBudget)."""
import json
from . import core, lang, progs, tlc
from .core import Case, hx
from .check import case_replay

BASE = """var co = nil; var hob = object();
function w(n) { while(n > 0) { n = n - 1; } return 0; }
function wy(n) { w(n); yield(1); return 2; }
function inco(n) { var c = coroutine(wy, n); resume(c); resume(c); return 0; }
function yb(n) { while(n > 0) { yield(n); n = n - 1; } return 0; }
function oby(n) { var c = coroutine(yb, n); while(n > 0) { resume(c); n = n - 1; } return 0; }
function cb(n) { return call(w, n); }
function cbco(n) { return call(inco, n); }
function cb2(n) { return call(cb, n); }
function rec(n) { if(n > 0) { rec(n - 1); } return 0; }
function alloc(n) { while(n > 0) { hob.x = object(); n = n - 1; } return 0; }
"""
KINDS = ("w", "inco", "cb", "cbco", "cb2", "rec", "alloc", "oby")
SLACK = 90      # more than any of the functions above executes besides its loop


def calibrate(C):
    """Instructions per unit of work, counted by running slices of one."""
    out = {}
    cases = []
    for k in ("w", "rec", "alloc", "oby"):
        for n in (10, 60):
            cases.append(Case("%s%d" % (k, n), ["new 0", "cs 0", "lib 0 -", "compile 0 %s %s" % (hx("c"), hx(BASE + "%s(%d);" % (k, n))), "fin 0",
                                               "run 0 1 0 0 0 1000000", "slices 0", "del 0"]))
    res = core.run_cases(C.exe, cases)
    got = {c.id: next(e["k"] for e in res[c.id] if e["ev"] == "slices") for c in cases}
    for k in ("w", "rec", "alloc", "oby"):
        d = got[k + "60"] - got[k + "10"]
        if d <= 0 or d % 50:
            raise RuntimeError("cost of %s: %s" % (k, got))
        out[k] = d // 50
    for k in ("inco", "cb", "cbco", "cb2"):
        out[k] = out["w"]
    C.extra["instructions_per_unit"] = dict(out)
    return out


def machine(C):
    """The machine's laws, exhaustively."""
    n = (9, 5, 24) if C.thorough else (7, 4, 16)
    C.tlc(tlc.run("NkBudget", "INIT Init\nNEXT Next\nINVARIANTS Stops InTime OnlyThen\nCONSTANTS MaxB = %d\nMaxG = %d\nMaxN = %d\n" % n,
                  files={"scenarios.json": "[]"}))


def scenario(rng, cost):
    parts = []
    for _ in range(rng.randrange(1, 7)):
        k = rng.choice(KINDS)
        parts.append((k, rng.choice((0, 1, 5, 20, 60)) if k == "rec" else rng.choice((0, 3, 10, 40, 100, 300, 1000))))
    host = rng.randrange(0, 3)
    p = [{"lo": n * cost[k], "hi": n * cost[k] + SLACK + (9 * n if k == "rec" else 0)} for k, n in parts]
    p[0]["hi"] += 120       # the declarations
    total = sum(x["lo"] for x in p)
    g = rng.choice((1, 2, 7, 50, 200, 1024, 1024, 3000))
    b = rng.choice((-1, 0, 1, g, rng.randrange(0, 2 * total + 10), rng.randrange(0, total + 10), total + 2 * g + 2000))
    return {"b": b, "g": g, "parts": p, "calls": parts, "host": min(host, len(parts) - 1), "slice": rng.choice((1, 3, 100, 10 ** 6, 10 ** 6)),
            "gc": rng.choice((0, 0, 5)), "exec": rng.random() < 0.2, "ser": rng.choice((0, 0, 0, 40)), "at": rng.random() < 0.5, "tail": rng.random() < 0.5}


def lines(s):
    main = s["calls"][:len(s["calls"]) - s["host"]]
    src = BASE + "".join("%s(%d);\nprint(%d);\n" % (k, n, i) for i, (k, n) in enumerate(main))
    L = ["new 0", "lim 0 gcint %d" % s["g"]] + (["lim 0 gcnew 1"] if s["gc"] else [])
    lim = ["lim 0 instr %d" % s["b"]] if s["b"] >= 0 else []
    L += (lim if s["at"] else []) + ["cs 0", "lib 0 -", "compile 0 %s %s" % (hx("b.nks"), hx(src)), "fin 0"] + ([] if s["at"] else lim)
    L += ["exec 0"] if s["exec"] else ["run 0 %d %d 0 %d 10000000" % (s["slice"], s["gc"], s["ser"])]
    for j, (k, n) in enumerate(s["calls"][len(main):]):
        L += ["callr 0 - g:%s i:%d" % (hx(k), n), "mark h%d" % (len(main) + j)]
    L.append("err 0")
    # stopped stays stopped
    L += ["run 0 1000 0 0 0 5", "callr 0 - g:%s i:5" % hx("w"), "err 0", "del 0"]
    return L


def judge(s, o, evs):
    p = None
    if not core.exit_ok(evs):
        return "crash", "did not survive: %s" % evs[-2:]
    done = 0
    errs = [e for e in evs if e["ev"] == "err"]
    ok = True
    for e in evs:
        if e["ev"] == "call" and e["f"] == "print":
            if e["args"][0]["i"] != done:
                return "order", "part %s after %d" % (e["args"][0]["i"], done)
            done += 1
        elif e["ev"] == "ret":
            ok = not e["err"]
        elif e["ev"] == "mark" and e["m"][0] == "h":
            if ok:
                if int(e["m"][1:]) != done:
                    return "order", "a host call worked after the program was stopped"
                done += 1
        elif e["ev"] in ("serfail", "loadfail"):
            return e["ev"], str(e)
        elif e["ev"] == "del" and e["live"]:
            return "leak", str(e)
    stopped = errs[0]["n"] > 0
    if stopped and "limit" not in errs[0]["text"]:
        return "error", "unexpected error %r" % errs[0]["text"]
    if done < o["must"]:
        return "early", "stopped after %d parts; %d fit into the budget of %d less the interval of %d (stopped %s)" % (done, o["must"], s["b"], s["g"], stopped)
    if done > o["may"]:
        return "late", "%d parts ran; only %d fit into the budget of %d and the interval of %d" % (done, o["may"], s["b"], s["g"])
    if (o["stop"] == "no" and stopped) or (o["stop"] == "yes" and not stopped):
        return "stop", "stopped: %s, specification says %s (budget %d, interval %d)" % (stopped, o["stop"], s["b"], s["g"])
    if stopped and (errs[1]["n"] < errs[0]["n"]):
        return "resumed", "the error went away"
    return None


def check(C, seed, num, cost):
    import random
    rng = random.Random("%s/budget/%d" % (C.pid, seed))
    ss = [scenario(rng, cost) for _ in range(num)]
    r = C.tlc(tlc.run("NkBudget", "INIT InitS\nNEXT NextS\nINVARIANTS Report Sound\nCONSTANTS MaxB = 1\nMaxG = 1\nMaxN = 1\n",
                      files={"scenarios.json": json.dumps([{k: s[k] for k in ("b", "g", "parts")} for s in ss])}))
    of = {x["q"]: x["of"] for x in r.records}
    cases = [Case("b%d" % i, lines(s)) for i, s in enumerate(ss)]
    res = core.run_cases(C.exe, cases)
    for i, (c, s) in enumerate(zip(cases, ss)):
        o = of[i + 1]
        v = judge(s, o, res.get(c.id, []))
        if v:
            evs, _ = core.run_one(C.exe, c)
            v = judge(s, o, evs)
        if v:
            C.report(v[0], v[1], dict(case_replay(c, v[1]), scenario=s, window=o))
        C.traces += 1
        C.count("stop_" + o["stop"])
    C.count("budget_scenarios", num)
    C.sample({k: ss[0][k] for k in ("b", "g", "calls")})


def exact(C, seed, num):
    """Predicted programs in slices of one instruction: stopped exactly within the window of the budget."""
    import random
    rng = random.Random("%s/exact/%d" % (C.pid, seed))
    gs = [progs.make(rng, rng.choice(("core", "coro", "calls", "objects")), 12, 1, 0) for _ in range(num)]
    exps = lang.predict(C, [g.program() for g in gs], steps=1500)
    full = [lang.case(g, "e%d" % i, slice=1) for i, g in enumerate(gs)]
    for c in full:
        c.lines.insert(-2, "slices 0")
    res = core.run_cases(C.exe, full)
    cases, info = [], {}
    for c, g, x in zip(full, gs, exps):
        # programs whose callbacks hide instructions are left to the scenarios
        if x.stat not in ("end", "err") or any(e["ev"] == "enter" for e in x.out):
            continue
        ev = res[c.id]
        n = next(e["k"] for e in ev if e["ev"] == "slices")
        for _ in range(3):
            gi = rng.choice((1, 2, 5, 16, 64))
            b = rng.choice((0, rng.randrange(0, n + 1), rng.randrange(0, n + 1), n + 2 * gi + 2))
            c2 = lang.case(g, "%s.%d" % (c.id, len(cases)), slice=1, pre=["lim 0 gcint %d" % gi, "lim 0 instr %d" % b])
            c2.lines.insert(-2, "slices 0")
            cases.append(c2)
            info[c2.id] = (n, b, gi, x, ev)
    res = core.run_cases(C.exe, cases)
    for c in cases:
        v = exact_judge(info[c.id], res.get(c.id, []))
        if v:
            evs, _ = core.run_one(C.exe, c)
            v = exact_judge(info[c.id], evs)
        if v:
            C.report(v[0], v[1], case_replay(c, v[1]))
        C.traces += 1
    C.count("exact_budgets", len(cases))


def exact_judge(i, evs):
    n, b, gi, x, full = i
    if not core.exit_ok(evs):
        return "crash", str(evs[-2:])
    k = next(e["k"] for e in evs if e["ev"] == "slices")
    er = next(e for e in evs if e["ev"] == "ran")
    stopped = er["n"] > 0 and "limit" in er["text"]
    if stopped:
        k -= 1        # the slice that was refused
        if k < b - gi:
            return "early", "stopped after %d instructions of a budget of %d, interval %d" % (k, b, gi)
        if k > b + gi:
            return "late", "stopped after %d instructions of a budget of %d, interval %d" % (k, b, gi)
    elif n > b + gi:
        return "late", "ran %d instructions on a budget of %d, interval %d" % (k, b, gi)
    if not stopped:
        return lang.compare(x, evs)
    # what it did until then is what the program does
    want = [lang.norm(e) for e in x.out]
    got = [y for y in (lang.norm(e) for e in evs[:evs.index(er)]) if y]
    if got != want[:len(got)]:
        return "event", "before it was stopped: %s" % got[-2:]
    return None
