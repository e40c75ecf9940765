"""Texts that are programs and texts that are not, by NkGrammar and NkLex."""
import json, os, random
from . import core, tlc
from .check import case_replay
from .core import Case, hx
from .limits import PROBE
from .values import V
from .lang import norm

FIXED = ["var", "function", "return", "if", "else", "while", "do", "for", "break", "nil", "newobject",
         "len", "object", "yield", "resume", "coroutine", "is_finished",
         "(", ")", "[", "]", "{", "}", ",", ";", ".", "->", "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=",
         "===", "&&", "||", "=", "++", "--", "!", "#int", "#flt", "#str", "#bad"]
TIGHT = set("(){}[];,")
BAD = ["@", "$", "`", "~", "^", "?", ":", "'", "\\", "&", "|", "\x01", "\x7f", "& &", "'a'", "\"\n\"", "#nonsense\n", "#line\n"]
STRS = ['""', '"x"', '"a b"', '"}"', '"//"', '"\\""', '"\\\\"', '"\\n"', '";"', '"(["', '"#line"', '"é"', '"/"', '"\\q"']
INTS = ["0", "1", "12", "2147483647", "007", "99999999999999999999"]
FLTS = ["1.5", "2.", "0.25", "1.2.3", "100000.0"]


def seq(l):
    return "<<" + ", ".join(json.dumps(t) for t in l) + ">>"


def st(l):
    return "{" + ", ".join(json.dumps(t) for t in l) + "}"


def chars(text):
    """A text as the sequence of characters NkLex reads."""
    return seq(["HI" if ord(c) > 127 else "CTL" if ord(c) < 32 and c not in "\n\t\r" else c for c in text])


def spell(toks, r, plain=False):
    """A text of these tokens."""
    out, prev = "", None
    for t in toks:
        w = {"#int": lambda: r.choice(INTS), "#flt": lambda: r.choice(FLTS), "#str": lambda: r.choice(STRS),
             "#bad": lambda: r.choice(BAD)}.get(t, lambda: t)()
        if prev is not None:
            tight = prev in TIGHT or t in TIGHT
            k = r.random()
            if plain or k < 0.45:
                out += "" if tight and k < 0.3 else " "
            else:
                out += " " * (prev == "/") + r.choice([" ", "\n", "\t", "\r\n", "  ", " \n\n", " // note }\n", "//\n", " //\"\n", "\n#line 7\n", "\n#\n", '\n#file "g.nks" // x\n'])
        out += w
        prev = t
    if not plain and r.random() < 0.1:
        out += r.choice(["\n", " ", "// end", "\n// \"", "\r\n"])
    return out


def lines(text, r, cut=None, run=True, probe=False, fname="t.nks"):
    """What the host does with one text."""
    l = ["new 0", "cs 0"]
    for part in ([text] if cut is None else [text[:cut], text[cut:]]):
        l.append("compile 0 %s %s" % (hx(fname), hx(part)))
    if probe:
        l += ["mark probe", "recover 0", "repl 0 %s" % hx("var p_1 = 1; function p_2(x) { return x + p_1; } while(p_1 < 5) { p_1 = p_2(p_1); }"),
              "gget 0 %s" % hx("p_1"), "fin 0"]
    else:
        l.append("fin 0")
        if run:
            l.append("run 0 2000 0 0 0 2")
    return l + ["del 0", "mark end"]


def groups(evs):
    g, out = [], []
    for e in evs:
        if e["ev"] == "mark" and e["m"] == "end":
            out.append(g)
            g = []
        else:
            g.append(e)
    return out, g


def judge(item, evs):
    comp = [e for e in evs if e["ev"] == "compiled"]
    if not comp:
        return "crash", "nothing was reported"
    err = comp[-1]["err"]
    if any(not e["ok"] and not e["err"] for e in comp):
        return "silent", "refused without an error"
    if item["ok"] is True and err:
        return "refused", "a program is refused"
    if item["ok"] is False and not err:
        return "accepted", "what is not a program is accepted"
    d = [e for e in evs if e["ev"] == "del"]
    if not d or d[0]["live"] or d[0]["bytes"]:
        return "leak", "deleting the VM leaves %s" % d
    if item.get("probe"):
        g = [e for e in evs if e["ev"] in ("rcompiled", "gget")]
        if len(g) != 2 or not g[0]["ok"] or not g[1]["ok"] or g[1]["v"] != V("i", 8):
            return "after", "the session does not go on afterwards: %s" % g
    return None


def check(C, name, items, size=60, timeout=60):
    """items: dict(text, ok, lines[, probe, why]). ok None: either will do."""
    cases, by = [], {}
    for i in range(0, len(items), size):
        part = items[i:i + size]
        c = Case("%s.%d" % (name, i), [l for it in part for l in it["lines"]])
        cases.append(c)
        by[c.id] = part
    out = core.run_cases(C.exe, cases, timeout=timeout)
    for c in cases:
        evs = out.get(c.id, [])
        g, rest = groups(evs)
        clean = core.exit_ok(evs)
        for i, it in enumerate(by[c.id]):
            v = judge(it, g[i]) if i < len(g) else None if clean else ("crash", "no answer")
            if not v:
                continue
            # alone, to be sure
            one = Case("%s.%d" % (c.id, i), it["lines"])
            e1, err = core.run_one(C.exe, one, timeout)
            g1, _ = groups(e1)
            v = ("crash", "did not survive: %s %s" % (e1[-1:], err[:400])) if not core.exit_ok(e1) else judge(it, g1[0] if g1 else e1)
            if v:
                C.report(v[0], "%s: %r (%s)" % (v[1], it["text"][:600], it.get("why", "")), case_replay(one, v[1]))
        if not clean and len(g) == len(by[c.id]):
            C.report("crash", "texts together: %s" % evs[-1:], case_replay(c, "crash"))
    C.traces += len(items)
    C.count(name, len(items))
    C.count("programs", sum(1 for i in items if i["ok"] is True))
    C.count("others", sum(1 for i in items if i["ok"] is False))
    return out


def item(toks, ok, r, why="", cuts=()):
    text = spell(toks, r, plain=r.random() < 0.3)
    probe = ok is False and r.random() < 0.25
    return dict(text=text, ok=ok, why=why, probe=probe, lines=lines(text, r, probe=probe))


CFG = "INIT %s\nNEXT %s\nINVARIANTS %s\nCONSTANTS Alphabet <- AC\nExtra <- XC\nMost = %d\nSeeds <- SC\nBefore <- BC\n"


def _run(C, init, next_, invs, alphabet, extra, most, seeds, before, timeout=600):
    mod = "---- MODULE NkTokensRun ----\nEXTENDS NkTokens\nAC == %s\nXC == %s\nSC == %s\nBC == {%s}\n====\n" % (
        st(alphabet), st(extra), seeds, ", ".join(seq(b) for b in before))
    return C.tlc(tlc.run("NkTokensRun", CFG % (init, next_, invs, most), files={"NkTokensRun.tla": mod}, timeout=timeout))


# What the exhaustive sequences are made of: small alphabets, each for a part of the grammar, and what goes before.
SETS = [
    ("statements", ["var", "function", "return", "if", "else", "a", "#int", "(", ")", "{", "}", ";", "="], [[], ["var", "a", ";"]], 7),
    ("loops", ["while", "do", "for", "break", "#int", "(", ")", "{", "}", ";", "var", "a"], [[], ["while", "(", "#int", ")", "{"]], 8),
    ("functions", ["function", "return", "a", "b", "(", ")", "{", "}", ",", ";", "#int"], [[], ["function", "a"], ["var", "b", ";", "{"]], 7),
    ("operators", ["a", "#int", "+", "=", "*", "&&", "==", "-", "!", "++", "(", ")", ";"], [["var", "a", ";"]], 4),
    ("places", ["a", "#int", "=", "++", "--", "[", "]", ".", "(", ")", "-", ";"], [["var", "a", ";"]], 5),
    ("calls", ["a", "#int", "(", ")", ",", "->", ".", ";", "[", "]", "function"], [["var", "a", ";"]], 6),
    ("forms", ["len", "object", "yield", "resume", "coroutine", "is_finished", "newobject", "#str", "(", ")", ",", ";"], [[]], 5),
]


def exhaustive(C, seed, deeper=0):
    """Every live sequence of a small alphabet, completed, and with every token after it."""
    r = random.Random("%s/ex/%d" % (C.pid, seed))
    for name, alpha, before, most in SETS:
        extra = r.sample(FIXED + ["a", "zz"], 8)
        res = _run(C, "Init", "NextAll", "Complete Law Say", alpha, extra, most + deeper, "{1}", before)
        items, seen = [], set()
        for rec in res.records:
            for toks, ok, why in ([(rec["ts"], rec["ok"], "prefix"), (rec["ts"] + rec["fin"], rec["finok"], "completed")] +
                                  [(rec["ts"] + [m["t"]] + m["rest"], m["ok"], "then " + m["t"]) for m in rec["more"]]):
                k = tuple(toks)
                if k not in seen:
                    seen.add(k)
                    items.append((toks, ok, why))
        C.count("sequences_" + name, len(res.records))
        yield name, items, r


def walks(C, seed, num, most=28, timeout=600):
    ids = ["a", "b", "c", "f", "_functionId", "_argumentCount"]
    lo = seed * num % 1000000
    res = _run(C, "InitRnd", "NextRnd", "Complete SayWalk", FIXED + ids, [], most, "%d .. %d" % (lo, lo + num - 1), [[]], timeout)
    r = random.Random("%s/walk/%d" % (C.pid, seed))
    items = []
    for rec in res.records:
        items.append(item(rec["ts"], rec["ok"], r, "walk"))
        items += [item(m["ts"], m["ok"], r, "mutation") for m in rec["muts"]]
    check(C, "walks", items, size=40)
    return items
