"""Random programs: predicted once by the specification, run under many schedules."""
import random, time
from . import core, gen, idioms, lang
from .check import case_replay

BIG = 1000000000


def sched(name, slice=1000000, gc=0, shrink=0, ser=0, pre=(), lib="-"):
    return dict(name=name, slice=slice, gc=gc, shrink=shrink, ser=ser, pre=list(pre), lib=lib)


def lim(**kw):
    return ["lim 0 %s %d" % (k, v) for k, v in kw.items()]


PLAIN = sched("at once")
NOGC = sched("no automatic collection", pre=lim(gcint=BIG))
STEP = sched("one instruction at a time", slice=1)
SLICE = sched("slices of 7", slice=7)
GCALL = sched("collection at every instruction", pre=lim(gcint=1, gcnew=1))
GCHOST = sched("host collects every 3 instructions", slice=3, gc=1)
GCODD = sched("interval 5, new objects 2", slice=13, pre=lim(gcint=5, gcnew=2))
SHRINK = sched("shrinking every 4 instructions", slice=4, shrink=1)
SHRGC = sched("shrinking and collecting", slice=3, shrink=1, gc=2, pre=lim(gcint=7, gcnew=1))
SER = sched("saved and loaded every 5 instructions", slice=5, ser=1)
SER1 = sched("saved and loaded at every instruction", slice=1, ser=1)
SERGC = sched("saved, loaded, collected, shrunk", slice=4, ser=3, gc=2, shrink=5)
ALL = [PLAIN, NOGC, STEP, SLICE, GCALL, GCHOST, GCODD, SHRINK, SHRGC, SER, SER1, SERGC]


def make(rng, profile, size=14, units=1, host=0):
    g = gen.Gen(rng, profile, size)
    for u in range(units):
        g.unit("t.nks" if units == 1 else "u%d.nks" % u)
    if host:
        g.hoststeps(host)
    return g


def profile_errors(prof):
    return prof in ("errors", "mixed")


def batch(C, seed, mix, scheds, size=14, units=(1,), host=0, steps=4000, gone=True, leaks=True, edit=None,
          min_n=0, timeout=60):
    """mix: {profile: number}.  Every program is run under every schedule in
    scheds (or the ones scheds(i) gives)."""
    gs = []
    for prof in mix:
        for i in range(mix[prof]):
            rng = random.Random("%s/%d/%s/%d" % (C.pid, seed, prof, i))
            if i % 5 < 2:
                g = idioms.make(rng, prof, 4, rng.choice(units), profile_errors(prof))
                g.hoststeps(host, rng)
                gs.append(g)
            else:
                gs.append(make(rng, prof, size, rng.choice(units), host))
    exps = lang.predict(C, [g.program() for g in gs], steps=steps)
    cases, info = [], {}
    for i, (g, x) in enumerate(zip(gs, exps)):
        for j, s in enumerate(scheds(i) if callable(scheds) else scheds):
            c = lang.case(g, "p%d.%d.%d" % (seed, i, j), pre=s["pre"], slice=s["slice"], gc=s["gc"], shrink=s["shrink"],
                          ser=s["ser"], lib=s["lib"], maxslices=400000 if x.stat in ("end", "err") else 3000)
            if x.stat == "limit":
                continue
            if edit:
                edit(c, g, s)
            cases.append(c)
            info[c.id] = (g, x, s)

    def judge(c, evs):
        g, x, s = info[c.id]
        v = lang.compare(x, evs, gone=gone)
        if not v and leaks and x.stat != "out":
            v = lang.del_ok(evs)
        return v
    res = core.run_cases(C.exe, cases, timeout=timeout)
    for c in cases:
        v = judge(c, res.get(c.id, []))
        if v:
            evs, err = core.run_one(C.exe, c, timeout * 2)
            v = judge(c, evs)
        if v:
            g, x, s = info[c.id]
            C.report(v[0], "program run %s: %s" % (s["name"], v[1]),
                     dict(case_replay(c, v[1]), sources=g.units, schedule=s["name"], expected=[x.stat, x.err, x.out[-8:]]))
        C.traces += 1
    C.count("programs", len(gs))
    C.count("program_runs", len(cases))
    for g, x in zip(gs[:1], exps):
        C.sample({"source": g.units[0][1][:600], "outcome": x.stat, "events": x.out[:6]})
    return gs, exps


def until(C, seconds, fn, rounds=3):
    """Calls fn(seed) with successive seeds: a fixed number in the quick tier, until the time is up in the thorough one."""
    k = 0
    while k < rounds or (C.thorough and time.time() - C.t0 < seconds):
        fn(C.seed * 1000 + k)
        k += 1
    C.extra["rounds"] = k


def interleave(C, seed, mix, size=12, host=3, steps=4000, k=3, timeout=60):
    """Programs of a mix run in one process, k at a time in k VMs, their
    commands and slices interleaved at random, while yet another VM comes and
    goes; each must behave as the specification says it does alone."""
    rng = random.Random("%s/il/%d" % (C.pid, seed))
    gs = []
    for prof in mix:
        for i in range(mix[prof]):
            if i % 5 < 2:
                g = idioms.make(rng, prof, 4, rng.choice((1, 2)), profile_errors(prof))
                g.hoststeps(host, rng)
            else:
                g = make(rng, prof, size, rng.choice((1, 2)), host)
            gs.append(g)
    rng.shuffle(gs)
    exps = lang.predict(C, [g.program() for g in gs], steps=steps)
    ok = [(g, x) for g, x in zip(gs, exps) if x.stat in ("end", "err")]
    cases, info = [], {}
    for n in range(0, len(ok) - k + 1, k):
        grp = ok[n:n + k]
        streams = []
        for v, (g, x) in enumerate(grp):
            L = lang.case(g, "x").lines
            L = [retarget(l, v) for l in L]
            at = next(i for i, l in enumerate(L) if l.startswith("run "))
            runs = ["run %d %d %d 0 %d %d" % (v, rng.choice((1, 2, 3, 5, 8, 30)), rng.choice((0, 0, 1)), rng.choice((0, 0, 0, 1)), rng.choice((1, 2, 6)))
                    for _ in range(rng.randrange(10, 60))]
            streams.append(([rng.choice(([], ["lim %d gcint 1" % v, "lim %d gcnew 1" % v]))] or [[]])[0])
            streams[-1] = L[:1] + streams[-1] + L[1:at] + runs + L[at:]
        streams.append([])
        for _ in range(rng.randrange(1, 5)):
            streams[-1] += ["new 3", "cs 3", "lib 3 -"] + rng.choice((
                ["compile 3 %s %s" % (core.hx("c.nks"), core.hx("var a = 1; print(a, \"other\"); a = mk(); fail(\"no\");")), "fin 3", "run 3 20 0 0 0 3", "gc 3"],
                ["compile 3 %s %s" % (core.hx("c.nks"), core.hx("function f( {")), "fin 3", "gc 3"],
                ["fin 3", "oom 3"])) + ["del 3"]
        L, left = [], [list(s) for s in streams]
        while any(left):
            v = rng.choice([i for i in range(len(left)) if left[i]])
            L += ["mark @%d" % (3 if v == k else v), left[v].pop(0)]
        c = core.Case("i%d.%d" % (seed, n), L)
        cases.append(c)
        info[c.id] = grp

    def judge(c, evs):
        per, cur = {}, None
        tail = []
        for e in evs:
            if e["ev"] == "mark" and e["m"][0] == "@":
                cur = int(e["m"][1:])
            elif e["ev"] in ("fin", "exit"):
                tail.append(e)
            else:
                per.setdefault(cur, []).append(e)
        if not core.exit_ok(evs):
            return "crash", "did not survive: %s" % evs[-2:]
        for v, (g, x) in enumerate(info[c.id]):
            w = lang.compare(x, per.get(v, []) + tail) or lang.del_ok(per.get(v, []) + tail)
            if w:
                return w[0], "VM %d of %d interleaved: %s" % (v, k, w[1])
        return None
    res = core.run_cases(C.exe, cases, timeout=timeout)
    for c in cases:
        v = judge(c, res.get(c.id, []))
        if v:
            evs, err = core.run_one(C.exe, c, timeout * 2)
            v = judge(c, evs)
        if v:
            C.report(v[0], v[1], dict(case_replay(c, v[1]), sources=[g.units for g, x in info[c.id]]))
        C.traces += 1
    C.count("programs", len(gs))
    C.count("interleavings", len(cases))


def retarget(line, v):
    """A harness line for VM 0 made one for VM v."""
    w = line.split(" ")
    if w[0] == "mark":
        return line
    w[1] = str(v)
    return " ".join(w)
