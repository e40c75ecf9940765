"""Programs through NkRun (what they must do) and through the VM (what they do)."""
import json, random
from collections import Counter
from . import core, tlc, gen
from .core import Case, hx
from .values import seen, same, key, token

CFG = "INIT Init\nNEXT Next\nINVARIANTS Laws Report\nCONSTANTS MaxSteps = %d\nMacro = %d\n"


class Expect:
    def __init__(self, rec):
        self.stat, self.out, self.err, self.n = rec["stat"], rec["out"], rec["err"], rec["n"]
        self.events = []
        for e in self.out:
            self.events.append(e)


def predict(check, progs, steps=2500, macro=40, timeout=600, workers=None):
    """Runs the specification on the programs; list of Expect in order."""
    files = {"progs.json": json.dumps(progs)}
    r = check.tlc(tlc.run("NkRun", CFG % (steps, macro), files=files, seed=check.seed, timeout=timeout, workers=workers))
    out = {}
    for rec in r.records:
        out[rec["pid"]] = Expect(rec)
    if len(out) != len(progs):
        raise RuntimeError("TLC reported %d of %d programs\n%s" % (len(out), len(progs), r.text[-3000:]))
    for e in out.values():
        check.count("machine_steps", e.n)
        check.count("programs_" + e.stat)
    return [out[i + 1] for i in range(len(progs))]


def norm(e):
    """A logged event in comparable form, or None if it is not compared."""
    k = e["ev"]
    if k == "call":
        return ("call", e["f"], tuple(key(seen(a)) for a in e["args"]))
    if k == "mk":
        return ("mk", e["tag"], e["k"])
    if k == "tag":
        return ("tag", e["tag"])
    if k in ("enter",):
        return (k,)
    if k == "leave":
        return ("leave", e["err"])
    if k == "gc":
        return ("gc",)
    if k == "ret":
        return ("ret", e["err"], key(seen(e["v"])) if not e["err"] else None)
    if k == "gget":
        return ("gget", e["ok"], key(seen(e["v"])))
    if k == "mark":
        return ("mark", e["m"])
    return None


def compare(exp, evs, gone=True, final=("ran", "err")):
    """None if the events are what the specification says, else (key, text)."""
    want = [norm(e) for e in exp.out]
    wantgone = [Counter(e["gone"]) for e in exp.out if e["ev"] == "gc"]
    i = 0
    cleaned, dead, made = Counter(), Counter(), Counter()
    g = 0
    fin = None
    stopped = False
    for e in evs:
        k = e["ev"]
        if k == "cleanup":
            cleaned[e["tag"]] += 1
            if cleaned[e["tag"]] > made[e["tag"]]:
                return "twice", "native object %d cleaned up twice" % e["tag"]
            continue
        if k in final:
            fin = e
            continue
        if k in ("serfail", "loadfail", "loadshort", "garbled", "badcmd", "oldleak"):
            return k, "%s: %s" % (k, e)
        x = norm(e)
        if x is None:
            continue
        if fin is not None and k in ("gc", "mark", "ret", "gget") and i >= len(want):
            continue
        if i >= len(want):
            if exp.stat in ("out", "limit"):
                break
            return "extra", "unexpected %s after %d events" % (x, i)
        if x != want[i]:
            return "event", "event %d: got %s, specification says %s" % (i, x, want[i])
        i += 1
        if k == "mk":
            made[e["tag"]] += 1
        if k == "gc" and gone:
            dead += wantgone[g]
            g += 1
            if cleaned != dead:
                return "gc", "after collection %d native objects cleaned up: %s; specification says %s" % (
                    g, sorted(cleaned.elements()), sorted(dead.elements()))
    if exp.stat in ("out", "limit"):
        return None
    if i < len(want):
        return "missing", "stopped after %d events, specification says %s follows; %s %s" % (i, want[i], fin, evs[-1:])
    if fin is not None:
        if exp.stat == "end":
            if fin["n"] or fin["has"]:
                return "error", "unexpected error: %r" % fin["text"]
            if fin["ev"] == "ran" and not fin["ended"]:
                return "notended", "program did not end: %s" % fin
        else:
            w = exp.err[0]
            if not fin["n"]:
                return "noerror", "no error, specification says %s" % w
            first = fin["text"].split("\n")[0]
            if w["at"] != "*" and not first.startswith(w["at"] + ": "):
                return "position", "error %r, specification says it is at %s (%s)" % (first, w["at"], w["msg"])
            if w["msg"] != "*":
                m = first.split(": ", 1)[1] if w["at"] != "*" and ": " in first else first
                if w["at"] == "*":
                    if not (w["msg"].split("\n")[0] in first):
                        return "message", "error %r, specification says %s" % (first, w)
                elif m != w["msg"].split("\n")[0]:
                    return "message", "error %r, specification says %s" % (first, w)
    if not core.exit_ok(evs):
        return "crash", "did not survive: %s" % evs[-3:]
    return None


def host_lines(host, runcmd):
    """Harness lines for the host steps after the first runs."""
    out = []
    for h in host:
        if h["op"] == "call":
            out.append("callr 0 - g:%s %s" % (hx(h["s"]), " ".join(token(a) for a in h["args"])))
        elif h["op"] == "gset":
            out.append("gset 0 %s %s" % (hx(h["s"]), token(h["args"][0])))
        elif h["op"] == "gget":
            out.append("gget 0 %s" % hx(h["s"]))
        elif h["op"] == "gc":
            out.append("gc 0")
        elif h["op"] == "mark":
            out.append("mark %s" % h["s"])
    return out


# A schedule: (name, commands before, slice, gcEvery, shrinkEvery, serEvery)
def case(g, cid, pre=(), slice=1000000, gc=0, shrink=0, ser=0, maxslices=200000, lib="-"):
    L = ["new 0"] + list(pre) + ["cs 0", "lib 0 " + lib]
    for fn, src in g.units:
        L.append("compile 0 %s %s" % (hx(fn), hx(src)))
    L += ["fin 0", "run 0 %d %d %d %d %d" % (slice, gc, shrink, ser, maxslices)]
    L += host_lines(g.host, None)
    L += ["err 0", "del 0"]
    return Case(cid, L)


def del_ok(evs):
    """Problems of teardown: leftovers."""
    for e in evs:
        if e["ev"] == "del" and (e["live"] or e["bytes"]):
            return "leak", "deleting the VM left %d blocks (%d bytes)" % (e["live"], e["bytes"])
        if e["ev"] == "fin" and (e["ext"] or e["sub"]):
            return "native leak", "%d native objects and %d subsystems were never cleaned up" % (e["ext"], e["sub"])
    return None
