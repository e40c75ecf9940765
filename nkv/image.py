"""Images: which are taken, which are refused (NkImage)."""
import json
from . import core, tlc
from .core import Case, hx
from .check import case_replay

CFG = "INIT Init\nNEXT Next\nINVARIANTS Laws Report\nCONSTANTS MaxS = %d\nMaxL = %d\nSteps = %d\n"


def script(o):
    rep = 'print(%s);' if "p" not in o else 'any2("r", %s);'
    return ('var keep = object(); var co = nil; var text = "t";\n'
            'function f(x) { var y = 0; while(y < 3) { y = y + 1; ' + rep % 'x * 10 + y' + ' yield(y); } return x; }\n'
            'keep[1] = mk1(1); keep.self = keep;\n'
            + ('keep[2] = mk(2);\n' if "m" not in o else '')
            + ('extra();\n' if "x" in o else '') + 'any2(1, 1);\n' +
            'co = coroutine(f, 5);\n'
            'for(var i = 0; i < 12; ++i) { ' + rep % 'i' + ' if(i == 2 || i == 5) { text = text + resume(co); keep[text] = i; } ' +
            ('if(i == 8) { keep[8] = mk1(8); ' + ('extra(); ' if "x" in o else '') + '} ') + '}\n'
            + rep % 'text' + ' ' + rep % 'len(keep)' + '\n')


def setup(v, o, src):
    return ["new %d" % v, "lim %d gcint 1000000000" % v, "cs %d" % v, "lib %d %s" % (v, "".join(o) or "-"),
            "compile %d %s %s" % (v, hx("i.nks"), hx(src)), "fin %d" % v]


def sizes(C, srcs, slices):
    """Length and number of reads of each image."""
    cases = [Case("s%d" % i, setup(0, "", s) + ["run 0 %d 0 0 0 1" % n, "ser 0 0"]) for i, (s, n) in enumerate(zip(srcs, slices))]
    res = core.run_cases(C.exe, cases)
    out = []
    for c in cases:
        e = next(e for e in res[c.id] if e["ev"] == "ser")
        out.append({"n": e["n"], "ops": e["ops"]})
    return out


def events(evs, names=("call", "mk", "iterx")):
    return [(e.get("f"), json.dumps(e.get("args")), e.get("tag"), sorted(e.get("tags", []))) for e in evs if e["ev"] in names]


def problems(evs):
    if not core.exit_ok(evs):
        return "crash", "did not survive: %s" % evs[-2:]
    for e in evs:
        if e["ev"] in ("oldleak", "garbled", "badcmd"):
            return e["ev"], str(e)
        if e["ev"] == "del" and (e["live"] or e["bytes"]):
            return "leak", "deletion left %d blocks" % e["live"]
        if e["ev"] == "fin" and (e["ext"] or e["sub"]):
            return "native leak", "%d native objects, %d subsystems never cleaned up" % (e["ext"], e["sub"])
    return None


def check(C, seed, srcs, slices, maxs=2, maxl=2, steps=1, per=25):
    sz = sizes(C, srcs, slices)
    r = C.tlc(tlc.run("NkImage", CFG % (maxs, maxl, steps), files={"images.json": json.dumps(sz)}))
    pairs = [x for x in r.records if x["k"] == "pair"]
    faults = [x for x in r.records if x["k"] == "fault"]
    C.count("registration_pairs", len(pairs))
    C.count("damaged_images", len(faults))
    cases, info = [], {}
    for j, x in enumerate(pairs):
        src = script(x["a"])
        n = 40 + (seed * 31 + j * 17) % 160
        L = setup(0, x["a"], src) + ["mark a", "run 0 %d 0 0 0 1" % n, "ser 0 0", "mark o", "run 0 100000 0 0 0 1", "iterx 0 0", "iterx 0 1", "mark b", "new 1", "lim 1 gcint 1000000000",
                                     "lib 1 %s" % ("".join(x["b"]) or "-"), "load 1 0", "mark c", "run 1 100000 0 0 0 1", "iterx 1 0", "iterx 1 1", "mark d", "del 1", "mark e", "del 0"]
        c = Case("p%d" % j, L)
        cases.append(c)
        info[c.id] = [x]
    faults.sort(key=lambda x: (x["i"], x["f"]["op"], x["f"]["at"], x["f"]["cut"]))
    for j in range(0, len(faults), per):
        grp = faults[j:j + per]
        while grp:
            i = grp[0]["i"]
            g = [x for x in grp if x["i"] == i]
            grp = [x for x in grp if x["i"] != i]
            L = setup(0, "", srcs[i - 1]) + ["run 0 %d 0 0 0 1" % slices[i - 1], "ser 0 0"]
            for x in g:
                f = x["f"]
                ld = "loadops 1 0 %d" % f["op"] if f["op"] else "load 1 0 -1 %d %d" % (f["at"], f["bits"]) if f["at"] >= 0 else "load 1 0 %d" % f["cut"]
                L += ["mark f", "new 1", "lib 1 -", ld, "del 1"]
            L += ["mark g", "ser 0 1", "cmpbuf 0 1", "run 0 1000000 0 0 0 1", "del 0"]
            c = Case("f%d.%d" % (j, i), L)
            cases.append(c)
            info[c.id] = g
    res = core.run_cases(C.exe, cases)
    for c in cases:
        v = judge(info[c.id], res.get(c.id, []))
        if v:
            evs, _ = core.run_one(C.exe, c)
            v = judge(info[c.id], evs)
        if v:
            C.report(v[0], v[1], case_replay(c, v[1]))
        C.traces += len(info[c.id])
    C.sample(pairs[len(pairs) // 2])
    C.sample(faults[len(faults) // 2])


def judge(xs, evs):
    p = problems(evs)
    if p:
        return p
    groups = []
    for e in evs:
        if e["ev"] == "mark":
            groups.append((e["m"], []))
        elif groups:
            groups[-1][1].append(e)
    if xs[0]["k"] == "fault":
        fs = [g for m, g in groups if m == "f"]
        for x, g in zip(xs, fs):
            e = next(e for e in g if e["ev"] == "load")
            if bool(e["ok"]) != (x["out"] == "take"):
                return "damaged", "image %d with %s: %s" % (x["i"], x["f"], e)
        last = groups[-1][1]
        e = next(e for e in last if e["ev"] == "cmpbuf")
        if not e["eq"]:
            return "changed", "the saved VM changed: %s" % e
        return None
    x = xs[0]
    g = dict(groups)
    e = next(e for e in g["b"] if e["ev"] == "load")
    who = "saved with '%s', loaded with '%s'" % ("".join(x["a"]), "".join(x["b"]))
    if x["out"] != "free" and bool(e["ok"]) != (x["out"] == "take"):
        return "registrations", "%s: %s" % (who, e)
    if e["ok"]:
        if e["left"] or e["err"]:
            return "load", "%s: %s" % (who, e)
        if events(g["c"]) != events(g["o"]) or not events(g["c"]):
            return "continue", "%s: loaded VM: %s; saved VM: %s" % (who, events(g["c"])[:4], events(g["o"])[:4])
        ran = next(e for e in g["c"] if e["ev"] == "ran")
        if ran["n"] or not ran["ended"]:
            return "continue", "%s: %s" % (who, ran)
        t1 = sorted(e["tag"] for e in g["d"] if e["ev"] == "cleanup")
        t0 = sorted(e["tag"] for e in g["e"] if e["ev"] == "cleanup")
        if t1 != t0:
            return "native", "%s: loaded VM cleaned up %s, saved VM %s" % (who, t1, t0)
    return None
