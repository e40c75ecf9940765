------------------------------ MODULE NkLife ------------------------------
(***************************************************************************)
(* The life of several VMs in one process: creation, registration,         *)
(* compilation, execution, calls, errors, collection, saving, loading      *)
(* (whole and cut images), catastrophic failure and deletion, in any       *)
(* order, interleaved between the VMs in any way.                          *)
(*                                                                         *)
(* State: vm[v] is what the host can know about VM v; buf[b] is the VM     *)
(* state that image b holds.  Every command names one VM and changes       *)
(* nothing else: that the others stay as they are is the independence      *)
(* property (C18); what deletion must clean up is read off vm[v] (C24).    *)
(*                                                                         *)
(* st: none - new (created) - lib (compiler and native functions) /        *)
(*     libx (native functions, for loading) - comp (something compiled) -  *)
(*     ready (finalised, perhaps part of the main program has run) - done; *)
(*     refused: a load failed, only deletion is left.                      *)
(* n    the script's counter                                               *)
(* live tags of native objects the script keeps                            *)
(* junk tags of native objects it dropped that no collection has freed     *)
(* co   the script's coroutine: <<>> none, <<step, x, a>>                  *)
(* es   the errors reported so far, in order                               *)
(* two  the second script was compiled as well                             *)
(* fl, ud, sk  what the host set: field limit, user data, stack limit      *)
(* oom  the VM had a catastrophic failure                                  *)
(* sub  native subsystems registered                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Depth, NV, NB, Kinds, Seeds, Rich

VARIABLES vm, buf, nt, hist, rnd
vars == <<vm, buf, nt, hist, rnd>>
VMs == 1 .. NV
Bufs == 1 .. NB

Blank == [st |-> "none", n |-> 0, live |-> {}, junk |-> {}, co |-> <<>>, es |-> <<>>, two |-> FALSE,
          fl |-> -1, sk |-> -1, ud |-> 0, oom |-> FALSE, sub |-> FALSE, s |-> ""]
Broken(x) == Len(x.es) > 0 \/ x.oom
Callable(x) == x.st = "done" /\ ~Broken(x)

Cmd(op, v, b, i) == [op |-> op, v |-> v, b |-> b, i |-> i]
Sts(ss) == {v \in VMs : vm[v].st \in ss}
Made == VMs \ Sts({"none"})
Settled == {v \in Made : vm[v].st # "refused" /\ ~vm[v].oom}
Nums == IF Rich THEN {1, 2, 5, -3} ELSE {1}
V1(op, vs) == {Cmd(op, v, 0, 0) : v \in vs}
Vi(op, vs) == {Cmd(op, v, 0, i) : v \in vs, i \in Nums}
\* No error and nothing in it yet (loading or registering more in any other VM is nobody's business).
Clean(vs) == {v \in vs : vm[v].es = <<>> /\ vm[v].junk = {}}
Full == {b \in Bufs : buf[b].st # "none"}

Commands(kind) ==
  CASE kind = "new"   -> V1("new", Sts({"none"}))
    [] kind = "lib"   -> V1("lib", Clean(Sts({"new"})))
    [] kind = "libx"  -> V1("libx", Clean(Sts({"new"})))
    [] kind = "good"  -> {Cmd("good", v, 0, 0) : v \in {x \in Sts({"lib"}) : ~Broken(vm[x])}}
    [] kind = "good2" -> {Cmd("good2", v, 0, 0) : v \in {x \in Sts({"comp"}) : ~vm[x].two /\ ~Broken(vm[x])}}
    [] kind = "bad"   -> {Cmd("bad", v, 0, 0) : v \in {x \in Sts({"lib", "comp"}) : ~Broken(vm[x])}}
    [] kind = "fin"   -> V1("fin", Sts({"comp"}))
    [] kind = "up"    -> V1("up", Sts({"none"}))
    [] kind = "upx"   -> V1("upx", Sts({"none"}))
    [] kind = "part"  -> {Cmd("part", v, 0, i) : v \in Sts({"ready"}), i \in IF Rich THEN {20, 30, 50, 90} ELSE {40}}
    [] kind = "run"   -> V1("run", Sts({"ready", "done"}))
    [] kind = "add"   -> Vi("add", Sts({"done"}))
    [] kind = "make"  -> V1("make", Sts({"done"}))
    [] kind = "mul"   -> Vi("mul", {v \in Sts({"done"}) : vm[v].two})
    [] kind = "text"  -> Vi("text", {v \in Sts({"done"}) : Len(vm[v].s) < 40})
    [] kind = "hmake" -> V1("hmake", {v \in Settled : vm[v].sub /\ ~Broken(vm[v])})
    [] kind = "drop"  -> {Cmd("drop", v, 0, t) : v \in Sts({"done"}), t \in UNION {vm[x].live : x \in VMs}}
    [] kind = "cstart" -> Vi("cstart", Sts({"done"}))
    [] kind = "cnext" -> Vi("cnext", {v \in Sts({"done"}) : vm[v].co # <<>>})
    [] kind = "boom"  -> V1("boom", {v \in Sts({"done"}) : Callable(vm[v])})
    [] kind = "adderr" -> V1("adderr", Settled)
    [] kind = "oom"   -> V1("oom", Settled)
    [] kind = "gc"    -> V1("gc", Made \ Sts({"refused"}))
    [] kind = "shrink" -> V1("shrink", Sts({"ready", "done"}))
    [] kind = "ser"   -> {Cmd("ser", v, b, 0) : v \in {x \in Sts({"ready", "done"}) : ~vm[x].oom}, b \in Bufs}
    [] kind = "load"  -> {Cmd("load", v, b, 0) : v \in Clean(Sts({"libx"})), b \in Full}
    \* loading without the native functions, from a cut image, from nothing
    [] kind = "bare"  -> {Cmd("load", v, b, 0) : v \in Clean(Sts({"new"})), b \in Full}
    [] kind = "cut"   -> {Cmd("cut", v, b, i) : v \in Clean(Sts({"libx"})), b \in Full, i \in IF Rich THEN {0, 3, 8, 20, 90, 150, 400, 800, 1100, 1500} ELSE {60}}
    [] kind = "gset"  -> Vi("gset", {v \in Sts({"done"}) : ~vm[v].oom})
    [] kind = "gget"  -> V1("gget", {v \in Sts({"done"}) : ~vm[v].oom})
    [] kind = "lim"   -> Vi("lim", Made)
    [] kind = "ud"    -> Vi("ud", Made)
    [] kind = "del"   -> V1("del", Made)

\* What can be asked of any VM at any time.
Look(x) == [errs |-> x.es, fl |-> x.fl, sk |-> x.sk, ud |-> x.ud, oom |-> x.oom]
\* The VM after it was given over to the image, and what it is when loaded into y.
Loaded(x, y) == [x EXCEPT !.fl = y.fl, !.sk = y.sk, !.ud = y.ud, !.es = y.es \o @, !.oom = FALSE, !.sub = y.sub]

None == [k |-> "none", i |-> 0, s |-> ""]
NumR(i) == [k |-> "i", i |-> i, s |-> ""]
StrR(s) == [k |-> "s", i |-> 0, s |-> s]
NilR == [k |-> "n", i |-> 0, s |-> ""]
Fail == [k |-> "err", i |-> 0, s |-> ""]

Log(c, x, want, gone) == hist' = Append(hist, [c |-> c, want |-> want, gone |-> SetToSeq(gone), look |-> Look(x)])
Set(c, x, want, gone) == vm' = [vm EXCEPT ![c.v] = x] /\ Log(c, x, want, gone)
Same == UNCHANGED <<buf, nt>>

Do(c) ==
  LET x == vm[c.v]
      \* a call: nothing happens in a VM that has an error
      Call(y, want) == IF Callable(x) THEN Set(c, y, want, {}) ELSE Set(c, x, Fail, {})
  IN
  CASE c.op = "new" -> Set(c, [Blank EXCEPT !.st = "new"], None, {}) /\ Same
    [] c.op = "lib" -> Set(c, [x EXCEPT !.st = "lib", !.sub = ~Broken(x)], None, {}) /\ Same
    [] c.op = "libx" -> Set(c, [x EXCEPT !.st = "libx", !.sub = ~Broken(x)], None, {}) /\ Same
    [] c.op = "up" -> Set(c, [Blank EXCEPT !.st = "ready", !.sub = TRUE], None, {}) /\ Same
    [] c.op = "upx" -> Set(c, [Blank EXCEPT !.st = "libx", !.sub = TRUE], None, {}) /\ Same
    [] c.op = "good" -> Set(c, [x EXCEPT !.st = "comp"], NumR(1), {}) /\ Same
    [] c.op = "good2" -> Set(c, [x EXCEPT !.two = TRUE], NumR(1), {}) /\ Same
    [] c.op = "bad" -> Set(c, [x EXCEPT !.st = "comp", !.es = <<"Expected identifier">>], NumR(0), {}) /\ Same
    [] c.op = "fin" -> Set(c, [x EXCEPT !.st = "ready"], None, {}) /\ Same
    \* part of the main program; what of it has run is for the observer to see
    [] c.op = "part" -> Set(c, x, None, {}) /\ Same
    \* the rest of it (what the second script does comes after the first)
    [] c.op = "run" -> Set(c, IF Broken(x) \/ x.st = "done" THEN x
                              ELSE [x EXCEPT !.st = "done", !.n = 40], None, {}) /\ Same
    [] c.op = "add" -> Call([x EXCEPT !.n = @ + c.i], NumR(x.n + c.i)) /\ Same
    [] c.op = "mul" -> Call([x EXCEPT !.n = @ - c.i], NumR((x.n - c.i) * c.i)) /\ Same
    [] c.op = "text" -> LET s == x.s \o ToString(c.i) \o ";" IN Call([x EXCEPT !.s = s], StrR(s)) /\ Same
    [] c.op = "make" -> Call([x EXCEPT !.live = @ \cup {nt}], NumR(Cardinality(x.live) + 1)) /\ UNCHANGED buf
                        /\ nt' = nt + (IF Callable(x) THEN 1 ELSE 0)
    \* the host makes a native object that nothing keeps
    [] c.op = "hmake" -> Set(c, [x EXCEPT !.junk = @ \cup {nt}], NumR(nt), {}) /\ nt' = nt + 1 /\ UNCHANGED buf
    [] c.op = "drop" -> Call([x EXCEPT !.live = @ \ {c.i}, !.junk = @ \cup (x.live \cap {c.i})],
                             NumR(Cardinality(x.live \ {c.i}))) /\ Same
    [] c.op = "cstart" -> Call([x EXCEPT !.co = <<1, c.i, 0>>], NumR(c.i * 2)) /\ Same
    [] c.op = "cnext" ->
         LET k == x.co[1] y == x.co[2] a == x.co[3] IN
         (CASE k = 1 -> Call([x EXCEPT !.co = <<2, y, c.i>>], NumR(c.i + y))
            [] k = 2 -> Call([x EXCEPT !.co = <<3, y, a + c.i>>], NumR((a + c.i) * y))
            [] k = 3 -> Call(x, NilR)) /\ Same
    [] c.op = "boom" -> Set(c, [x EXCEPT !.n = @ + 100, !.es = Append(@, "b" \o ToString(nt))], Fail, {}) /\ nt' = nt + 1 /\ UNCHANGED buf
    [] c.op = "adderr" -> Set(c, [x EXCEPT !.es = Append(@, "m" \o ToString(nt))], None, {}) /\ nt' = nt + 1 /\ UNCHANGED buf
    [] c.op = "oom" -> Set(c, [x EXCEPT !.oom = TRUE], None, {}) /\ Same
    [] c.op = "gc" -> IF x.oom THEN Set(c, x, None, {}) /\ Same
                      ELSE Set(c, [x EXCEPT !.junk = {}], None, x.junk) /\ Same
    [] c.op = "shrink" -> Set(c, x, None, {}) /\ Same
    [] c.op = "ser" -> /\ vm' = vm /\ buf' = [buf EXCEPT ![c.b] = x] /\ UNCHANGED nt
                       /\ Log(c, x, NumR(1), {})
    [] c.op = "load" ->
         LET w == buf[c.b] IN
         (IF x.sub /\ ~Broken(x) THEN Set(c, Loaded(w, x), NumR(1), {})
          ELSE Set(c, [x EXCEPT !.st = "refused"], NumR(0), {})) /\ Same
    [] c.op = "cut" -> Set(c, [x EXCEPT !.st = "refused"], NumR(0), {}) /\ Same
    [] c.op = "gset" -> Set(c, [x EXCEPT !.n = c.i], NumR(1), {}) /\ Same
    [] c.op = "gget" -> Set(c, x, NumR(x.n), {}) /\ Same
    [] c.op = "lim" -> Set(c, [x EXCEPT !.fl = 1000 + nt, !.sk = 5000 + nt], None, {}) /\ nt' = nt + 1 /\ UNCHANGED buf
    [] c.op = "ud" -> Set(c, [x EXCEPT !.ud = nt], None, {}) /\ nt' = nt + 1 /\ UNCHANGED buf
    [] c.op = "del" -> /\ vm' = [vm EXCEPT ![c.v] = Blank] /\ Same
                       /\ Log(c, x, NumR(IF x.sub THEN 1 ELSE 0), x.live \cup x.junk)

Rnd0(s) == <<1 + ((s * 7 + 11) % 30268), 1 + ((s * 131 + 5) % 30306), 1 + ((s * 1009 + 7) % 30322)>>
RndN(r) == <<(r[1] * 171) % 30269, (r[2] * 172) % 30307, (r[3] * 170) % 30323>>
Pick(s, r) == SetToSeq(s)[1 + ((r[1] + r[2] * 3 + r[3] * 11) % Cardinality(s))]

Init == rnd \in {Rnd0(s) : s \in Seeds} /\ vm = [v \in VMs |-> Blank] /\ buf = [b \in Bufs |-> Blank] /\ nt = 1 /\ hist = <<>>
NextAll == /\ Len(hist) < Depth
           /\ \E j \in 1 .. Len(Kinds) : \E c \in Commands(Kinds[j]) : Do(c)
           /\ UNCHANGED rnd
Can == {j \in 1 .. Len(Kinds) : Commands(Kinds[j]) # {}}
NextRnd == /\ Len(hist) < Depth
           /\ rnd' = RndN(RndN(rnd))
           /\ \E j \in {Pick(Can, rnd)} : \E c \in {Pick(Commands(Kinds[j]), RndN(rnd))} : Do(c)
Report == Len(hist) = Depth => PrintT(ToJson(hist))

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
Disjoint == \A v \in VMs : vm[v].live \cap vm[v].junk = {}
NoSub == \A v \in VMs : ~vm[v].sub => vm[v].live \cup vm[v].junk = {} \/ vm[v].st = "refused"
Tags == \A v \in VMs : \A t \in vm[v].live \cup vm[v].junk : t < nt
Fresh == \A v \in VMs : vm[v].st \in {"none", "new", "lib", "libx"} => vm[v].live = {} /\ vm[v].n = 0 /\ vm[v].co = <<>>
Laws == Disjoint /\ NoSub /\ Tags /\ Fresh
\* A step changes at most the VM it names.
Independent == [][\A v \in VMs : vm'[v] # vm[v] => hist'[Len(hist')].c.v = v]_vars
=============================================================================
