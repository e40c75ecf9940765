"""Interactive sessions: predicted by NkRepl, held with the VM."""
import json, random, re
from collections import Counter
from . import core, gen, idioms, lang, parse, tlc
from .check import case_replay
from .core import Case, hx
from .lang import norm
from .values import V, token

CFG = "INIT Init\nNEXT Next\nINVARIANTS Laws Report\nPROPERTY Lasting\nCONSTANTS MaxSteps = %d\nMacro = %d\n"
FILE = "<stdin>"
EXTRA = """function stop_%d(x) { fail(x); return 1; }
var ob_%d = object();
function late_%d(a, b) { ob_%d.last = a; return a + b; }
function gen_%d(n) { var i = 0; var keep = mk(); while(i < n) { tag(keep); i = yield(i) + 1; } return keep; }
var co_%d = coroutine(gen_%d, 9);
print(resume(co_%d));
function bad_%d(n) { var keep = mk(); yield(n); n = n - 1; stop_%d("in coroutine"); print("not here"); yield(n); }
function outer_%d(n) { var c = coroutine(bad_%d, n); ob_%d.inner = c; resume(c); yield(1); print(resume(c)); return 4; }
var two_%d = coroutine(outer_%d, 3);
print(resume(two_%d), is_finished(two_%d));
print(resume(two_%d)); print("not here");
var y_%d = 12; function after_%d(q) { return q * y_%d; }
print(is_finished(two_%d));
print(is_finished(ob_%d.inner));
print(resume(two_%d));
print(resume(ob_%d.inner));
print(y_%d, after_%d);
print(resume(co_%d, 2), is_finished(co_%d));
print(late_%d(3, 4), ob_%d.last);
call(stop_%d, "inside a callback"); print("not here");
call(late_%d, 5, 6);
gc();
ob_%d.self = ob_%d; ob_%d.t = mk(); ob_%d.nope.nope = 3;
print(len(ob_%d)); tag(ob_%d.t);
after_%d(2);
for(var i = 0; i < 5; ++i) { print(i); if(i == 2) { late_%d(1); } }
{ var deep = mk(); { var deeper = deep; tag(deeper); while(1) { ob_%d.x.y = 1; } } }
var z_%d = late_%d(20, 3); print(z_%d);
function rec_%d(n) { if(n == 0) { return 1 / 0; } return 1 + rec_%d(n - 1); }
print("before"); rec_%d(6); print("after");
ii("no", 1);
nil();
print(resume(coroutine(bad_%d, 2)));
var w_%d = stop_%d("declared by a failing line"); var v_%d = 3;
print(w_%d, v_%d);
w_%d = w_%d + 1; print(w_%d);"""
TAILS = ["\n);", "\nvar = 3;", "\nif(", "\nfunction unfinished(a) {\n var b = a;", "\nprint(1, ;", "\n}", "\nprint(1);\nelse { }",
         "\nvar q_q = undeclared_q;", "\nbreak;", "\n{ { { ", "\nwhile(1) { if(2) { var t_t = 3; ] } }", "\nundeclared_fn(2);",
         "\nfunction twice(a, a", "\n1 = 2;", "\nfor(var i = 0; i < 3; ++i { }", "\ndo { } while(", "\nreturn 1 +;",
         "\nvar f_f = function(x) { return x x; };", "\n@", "\noops_o = 4;", "\nvar dup_d = 1; var dup_d = 2;", "\nvar s_s = \"\" . ;"]


def chunks(src):
    """Cuts a script into pieces between its top-level statements."""
    out, cur, depth = [], [], 0
    lines = src.rstrip("\n").split("\n")
    for i, l in enumerate(lines):
        cur.append(l)
        bare = re.sub(r'"(?:[^"\\]|\\.)*"', '""', l)
        depth += sum(bare.count(c) for c in "([{") - sum(bare.count(c) for c in ")]}")
        nxt = lines[i + 1].strip() if i + 1 < len(lines) else ""
        if depth == 0 and bare.rstrip().endswith((";", "}")) and not nxt.startswith(("else", "while", "{")):
            out.append("\n".join(cur) + "\n")
            cur = []
    if cur:
        out.append("\n".join(cur) + "\n")
    return out


class Session:
    """What gen.Gen and parse.Prog offer, with the session's host steps."""

    def __init__(self, prog):
        self.prog = prog
        self.host = []
        self.src = {}

    def line(self, n, src):
        self.host += [dict(op="line", n=n, s="", args=[]), dict(op="done", n=0, s="", args=[])]
        self.src[len(self.host) - 2] = src

    def bad(self, src):
        self.host.append(dict(op="bad", n=0, s="", args=[]))
        self.src[len(self.host) - 1] = src

    def between(self, r, names):
        k = r.choice(["gget", "gset", "gc", "shrink", "call", "none", "gget"])
        if k == "none":
            self.host.append(dict(op="gget", n=0, s=r.choice(["nosuch", "q_q", "b", "unfinished", "t_t", "f_f", "dup_d"]), args=[]))
        elif k in ("gc", "shrink"):
            self.host.append(dict(op=k, n=0, s="", args=[]))
        elif names:
            x = r.choice(names)
            if k == "gset":
                # leaves functions and objects alone
                x = r.choice([a for a in names if not a.startswith(("co_", "two_", "ob_"))] or [x])
                self.host.append(dict(op=k, n=0, s=x, args=[V("i", r.randrange(-9, 99))]))
            elif k == "call":
                self.host += [dict(op=k, n=0, s=x, args=[V("i", r.randrange(0, 4))] * r.randrange(0, 3)),
                              dict(op="done", n=0, s="", args=[])]
            else:
                self.host.append(dict(op=k, n=0, s=x, args=[]))

    def program(self):
        p = self.prog.program()
        return dict(p, host=self.host)

    def lines(self, slice_):
        L = []
        for i, h in enumerate(self.host):
            if h["op"] in ("line", "bad"):
                L.append("repl 0 %s%s" % (hx(self.src[i]), " %d" % slice_ if slice_ else ""))
            elif h["op"] == "call":
                L += lang.host_lines([h], None) + ["recover 0"]
            elif h["op"] == "shrink":
                L.append("shrink 0")
            elif h["op"] != "done":
                L += lang.host_lines([h], None)
        return L


def names_of(prog):
    tops = [prog.nodes[i - 1] for u in prog.nodes if u["k"] == "unit" for i in u["l"]]
    return [t["s"] for t in tops if t["k"] in ("decl", "fun")]


def spoil(r, src):
    """A text that no script can be, made from one that is."""
    t = r.choice(TAILS)
    k = r.randrange(4)
    if k == 0:
        return t.strip()
    if k == 1 and t != "\n}":
        return "function fresh_f(a) {\n    var b = a;\n" + "".join("    " + l + "\n" for l in src.split("\n") if not l.strip().startswith("//")) + t
    return src + t


def script(prof, r):
    """Chunks of a session, in order."""
    if r.random() < 0.4:
        out = []
        for u in range(1, 3):
            out += chunks(idioms.rename(idioms.source(r, prof, 3, r.randrange(0, 3), True), u))
        return out
    # the fixed scenario, in a random order that keeps to the declarations
    tag = r.randrange(1, 50)
    lines = [l.replace("%d", str(tag)) + "\n" for l in EXTRA.split("\n")]
    head, tail = lines[:15], lines[15:]
    k = r.randrange(3)
    out = []
    if k == 0:
        out = lines
    else:
        out = head + [l for l in tail if re.search(r"\b(var|function) ", l) or r.random() < 0.7]
        if k == 2:      # some lines twice, and joined ones
            body = []
            for l in out[15:]:
                body.append(l)
                if not re.search(r"\b(var|function) ", l) and r.random() < 0.4:
                    body.append(l)
            out = out[:15] + body
    joined, i = [], 0
    while i < len(out):
        n = r.choice([1, 1, 1, 2, 3])
        joined.append("".join(out[i:i + n]))
        i += n
    return joined


def make(r, prof, size=10, between=0.25):
    if r.random() < 0.45:
        g = gen.Gen(r, prof, 2)
        s = Session(g)
        for _ in range(size):
            g.size = r.randrange(1, 4)
            n = g.unit(FILE)
            if r.random() < 0.35:
                s.bad(spoil(r, g.units[-1][1]))
            s.line(n, g.units[-1][1])
            while r.random() < between + 0.15:
                s.between(r, names_of(g))
        return s
    p = parse.Prog()
    s = Session(p)
    for src in script(prof, r):
        if r.random() < 0.35:
            s.bad(spoil(r, src))
        p.unit(FILE, src)
        s.line(len(p.nodes), src)
        while r.random() < between:
            s.between(r, names_of(p))
    return s


def predict(check, sessions, steps=6000, macro=60, timeout=600):
    files = {"progs.json": json.dumps([s.program() for s in sessions])}
    r = check.tlc(tlc.run("NkRepl", CFG % (steps, macro), files=files, seed=check.seed, timeout=timeout))
    out = {rec["pid"]: lang.Expect(rec) for rec in r.records}
    if len(out) != len(sessions):
        raise RuntimeError("TLC reported %d of %d sessions\n%s" % (len(out), len(sessions), r.text[-3000:]))
    for e in out.values():
        check.count("machine_steps", e.n)
        check.count("sessions_" + e.stat)
    return [out[i + 1] for i in range(len(sessions))]


def reported(w, e):
    """Whether the report e of one input is the one the specification gives."""
    if not w["n"]:
        return None if not e["n"] and not e["has"] else ("error", "unexpected error %r" % e["text"])
    if not e["n"]:
        return "noerror", "no error, specification says %s" % w
    first = e["text"].split("\n")[0]
    if w["at"] == "?":
        if not re.match(re.escape(FILE) + r":\d+: .", first):
            return "position", "error %r of text that does not compile has no position" % first
        return None
    if w["at"] != "*":
        if not first.startswith(w["at"] + ": "):
            return "position", "error %r, specification says it is at %s (%s)" % (first, w["at"], w["msg"])
        if w["msg"] != "*" and first.split(": ", 1)[1] != w["msg"].split("\n")[0]:
            return "message", "error %r, specification says %s" % (first, w)
    elif w["msg"] != "*" and w["msg"].split("\n")[0] not in first:
        return "message", "error %r, specification says %s" % (first, w)
    return None


def compare(exp, evs):
    want = [(norm(e) or ("rdone",), e) for e in exp.out]
    i, n = 0, 0
    cleaned, dead = Counter(), Counter()
    for e in evs:
        k = e["ev"]
        if k == "cleanup":
            cleaned[e["tag"]] += 1
            continue
        if k in ("serfail", "loadfail", "garbled", "badcmd", "oldleak"):
            return k, "%s: %s" % (k, e)
        x = norm(e) or (("rdone",) if k == "rdone" else None)
        if x is None:
            continue
        if i >= len(want):
            if exp.stat == "end":
                return "extra", "unexpected %s" % (x,)
            break
        w, we = want[i]
        if x != w:
            return "event", "event %d (after %d inputs): got %s %s, specification says %s" % (
                i, n, x, e.get("text", ""), [w, we.get("msg"), we.get("at")])
        i += 1
        if k == "rdone":
            n += 1
            v = reported(we, e)
            if v:
                return v[0], "input %d: %s" % (n, v[1])
        if k == "gc":
            dead += Counter(we["gone"])
            if cleaned != dead:
                return "gc", "after a collection %s were cleaned up, specification says %s" % (
                    sorted(cleaned.elements()), sorted(dead.elements()))
    if exp.stat == "end" and i < len(want):
        return "missing", "ended after %d events, specification says %s follows; %s" % (i, want[i], evs[-1:])
    if not core.exit_ok(evs):
        return "crash", "did not survive: %s" % evs[-3:]
    return lang.del_ok(evs)


BIG = 1000000000
SCHEDS = [("at once", [], 0), ("in slices of 5", [], 5), ("collecting all the time", ["lim 0 gcint 1", "lim 0 gcnew 1"], 0),
          ("collecting often, one instruction at a time", ["lim 0 gcint 3", "lim 0 gcnew 1"], 1)]


def batch(C, seed, n=200, size=10, between=0.25, profs=("errors", "mixed", "coro", "native", "gc", "calls")):
    sessions = []
    for i in range(n):
        r = random.Random("%s/%d/repl/%d" % (C.pid, seed, i))
        prof = "errors" if r.random() < 0.6 else r.choice(profs)
        sessions.append(make(r, prof, size, between))
    exps = predict(C, sessions)
    cases, info = [], {}
    for i, (s, x) in enumerate(zip(sessions, exps)):
        for j, (name, pre, sl) in enumerate(SCHEDS):
            if x.stat == "limit" or (x.stat == "out" and sl):
                continue
            if j and (i + j) % 2:
                continue
            c = Case("s%d.%d.%d" % (seed, i, j), ["new 0"] + pre + ["cs 0", "lib 0 -"] + s.lines(sl) + ["fin 0", "del 0"])
            cases.append(c)
            info[c.id] = (s, x, name)

    def judge(c, evs):
        s, x, name = info[c.id]
        return compare(x, evs)
    res = core.run_cases(C.exe, cases, timeout=60)
    for c in cases:
        v = judge(c, res.get(c.id, []))
        if v:
            evs, err = core.run_one(C.exe, c, 120)
            v = judge(c, evs)
        if v:
            s, x, name = info[c.id]
            C.report(v[0], "session run %s: %s" % (name, v[1]),
                     dict(case_replay(c, v[1]), inputs=[s.src[k] for k in sorted(s.src)], schedule=name, expected=x.out[-8:]))
        C.traces += 1
    C.count("sessions", len(sessions))
    C.count("session_runs", len(cases))
    for s, x in zip(sessions, exps):
        done = [e for e in x.out if e["ev"] == "rdone"]
        C.count("inputs", len(done))
        C.count("inputs_rejected", sum(1 for e in done if e["at"] == "?"))
        C.count("inputs_failed", sum(1 for e in done if e["n"] and e["at"] != "?"))
    s = sessions[0]
    C.sample({"inputs": [s.src[k][:200] for k in sorted(s.src)][:5], "events": exps[0].out[:6]})


# -- the interpreter program itself, one line at a time
OTHER = re.compile(r"\b(ii|is|z|fl|any2|ob|mk|mk1|tag|setref|getref|gc|hold|drop|hcount|fail|oom|call|bump|count|chk)\(")


def plain(src):
    """A chunk on one line, with nothing but print from outside."""
    src = re.sub(r"//[^\n]*", "", src)
    src = src.replace("fail(x);", "nil();").replace("mk()", "object()")
    src = re.sub(r"\b(tag|gc)\([^()]*\);", "", src)
    src = re.sub(r"\b(gc|z|bump)\(\)", "7", src)
    src = re.sub(r"\b(fl|ob|tag)\(", "(", src)
    return " ".join(src.split("\n")).strip()


def typed(r, prof, size):
    """A session as one would type it: every input is a line."""
    if r.random() < 0.4:
        g = gen.Gen(r, prof, 2)
        g.w.update(native=0, cb=0, gc=0)
        for _ in range(size):
            g.size = r.randrange(1, 4)
            g.unit(FILE)
        src = [u[1] for u in g.units]
    else:
        src = script(prof, r)
    p = parse.Prog()
    s = Session(p)
    lost = set()       # names of what was left out
    for c in src:
        c = plain(c)
        if not c:
            continue
        if OTHER.search(c) or lost & set(re.findall(r"\w+", c)):
            lost |= set(re.findall(r"\b(?:var|function) (\w+)", c))
            s.bad("{ nothing.like(this ]")
            continue
        n = len(p.nodes), len(p.fns)
        try:
            p.unit(FILE, c)
        except parse.Bad:
            del p.nodes[n[0]:], p.fns[n[1]:]
            lost |= set(re.findall(r"\b(?:var|function) (\w+)", c))
            continue
        if r.random() < 0.3:
            s.bad(plain(spoil(r, c)) or "}")
        s.line(len(p.nodes), c)
    return s


def shown(v):
    """What print shows, as a pattern."""
    if v["t"] == "s":
        return re.escape(v["s"])
    if v["t"] == "i":
        return re.escape(str(v["i"]))
    if v["t"] == "n":
        return "<nil:0>"
    return "(?:<[^<>]*>|[-+0-9.e]+|-?nan|-?inf)"


def interpreter(C, exe, seed, n=60, size=12):
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    sessions = [typed(random.Random("%s/%d/typed/%d" % (C.pid, seed, i)), "errors" if i % 3 else "coro", size) for i in range(n)]
    sessions = [s for s in sessions if s.prog.nodes]
    exps = predict(C, sessions)

    def play(s):
        text = "".join(s.src[k] + "\n" for k in sorted(s.src))
        return subprocess.run([exe], input=text.encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=core.ENV)

    def judge(x, p):
        if p.returncode:
            return "crash", "the interpreter ended with %d: %s" % (p.returncode, p.stderr[-600:].decode("latin-1"))
        pat, errs = r"\n>>> ", []
        for e in x.out:
            if e["ev"] == "call" and e["f"] == "print":
                pat += "".join(shown(v) for v in e["args"])
            elif e["ev"] == "rdone":
                pat += r"\n>>> "
                if e["n"]:
                    errs.append(e)
        if not re.fullmatch(pat + r"\n", p.stdout.decode("latin-1"), re.S):
            return "typed", "the interpreter printed %r, specification says %r" % (p.stdout.decode("latin-1")[-800:], pat[-800:])
        got = p.stderr.decode("latin-1").split("error:\n")[1:]
        if len(got) != len(errs):
            return "typed errors", "the interpreter reported %d errors, specification says %d" % (len(got), len(errs))
        for w, g in zip(errs, got):
            v = reported(w, dict(n=1, has=1, text=g))
            if v:
                return v
        return None
    todo = [(s, x) for s, x in zip(sessions, exps) if x.stat == "end"]
    with ThreadPoolExecutor(core.NPROC) as ex:
        res = list(ex.map(lambda t: play(t[0]), todo))
    for (s, x), p in zip(todo, res):
        v = judge(x, p)
        if v:
            v = judge(x, play(s))
        if v:
            C.report(v[0], v[1], {"inputs": [s.src[k] for k in sorted(s.src)], "stdin of": "the interpreter"})
        C.traces += 1
    C.count("typed_sessions", len(todo))
