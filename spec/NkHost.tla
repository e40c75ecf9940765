------------------------------ MODULE NkHost ------------------------------
(***************************************************************************)
(* A host working on the objects of a VM: it creates plain and native      *)
(* objects, reads and writes fields and globals, holds and releases        *)
(* handles, calls script functions, collects, shrinks, saves and loads.    *)
(*                                                                         *)
(* State: heap (object number -> record), reg (values the host holds in    *)
(* its own variables, which keep nothing alive), g (script globals; "co"   *)
(* is a parked coroutine that holds one object), hist (what was done and   *)
(* what the host must have seen).  The host may only use a register whose  *)
(* object is certainly still there: a register becomes stale when          *)
(* something that may collect or move objects happens while nothing keeps  *)
(* its object.                                                             *)
(*                                                                         *)
(* The host may limit the number of fields of an object (lf): a field too  *)
(* many is refused with an error, and the object stays as it is.           *)
(*                                                                         *)
(* An extra release is reported, which puts the VM in the error state er:  *)
(* it runs no script any more, but the host's calls go on.                 *)
(*                                                                         *)
(* Next is used in two ways: NextAll (every command; exhaustive) and       *)
(* NextRnd (the random number generator rnd picks the command: one long    *)
(* walk from every seed).                                                  *)
(***************************************************************************)
EXTENDS NkValue, Json, SequencesExt

CONSTANTS Depth, NReg, MaxObj, Kinds, Rich, Seeds

Stale == MkV("stale", 0, 0, "")
ANil == MkV("n", 0, 0, "")
R(j) == MkV("r", j, 0, "")
NameKey == S("#")

VARIABLES heap, reg, g, er, lf, hist, rnd
vars == <<heap, reg, g, er, lf, hist, rnd>>
Regs == 1 .. NReg
Globals == {"ga", "gb"}

(***************************************************************************)
(* Reachability.                                                           *)
(***************************************************************************)
IdsIn(vs) == {v.i : v \in {w \in vs : w.t = "o"}}
Succ(h, i) == IdsIn(DOMAIN h[i].f) \cup IdsIn({h[i].f[x] : x \in DOMAIN h[i].f}) \cup IdsIn({h[i].ref})
RECURSIVE Closure(_, _, _)
Closure(h, seen, new) ==
  IF new = {} THEN seen
  ELSE LET nx == UNION {Succ(h, i) : i \in new} \ (seen \cup new) IN Closure(h, seen \cup new, nx)
Roots(h, gl) == IdsIn({gl[x] : x \in DOMAIN gl}) \cup {i \in 1 .. Len(h) : h[i].h > 0 /\ ~h[i].dead}
Reach(h, gl) == Closure(h, {}, Roots(h, gl))
Usable(v) == v.t # "stale"
\* Registers after something that may have collected: only kept objects are safe.
Fade(rg, h, gl) == LET live == Reach(h, gl) IN
                   [j \in Regs |-> IF rg[j].t = "o" /\ rg[j].i \notin live THEN Stale ELSE rg[j]]
\* Registers after something that may have moved objects: only held ones are safe.
Moved(rg, h) == [j \in Regs |-> IF rg[j].t = "o" /\ h[rg[j].i].h = 0 THEN Stale ELSE rg[j]]
Bury(h, gl) == LET live == Reach(h, gl) IN
               [i \in 1 .. Len(h) |-> IF i \in live THEN h[i] ELSE [h[i] EXCEPT !.dead = TRUE]]

(***************************************************************************)
(* Commands: [op, r, d, k, v, n].                                          *)
(***************************************************************************)
Cmd(op, r, d, k, v, n) == [op |-> op, r |-> r, d |-> d, k |-> k, v |-> v, n |-> n]
ObjRegs == {j \in Regs : reg[j].t = "o"}
ExtRegs == {j \in ObjRegs : heap[reg[j].i].ty >= 0}
Plain == IF Rich THEN {I(1), I(17), I(33), F(1, 0), F(3, 1), S("1"), S("a"), S(""), S("next"), I(-15), ANil} ELSE {I(1), S("1")}
KeysC == Plain \cup {R(j) : j \in ObjRegs}
ValsC == (IF Rich THEN {I(5), S("x"), F(5, 1), I(0), S("long text that is its own string")} ELSE {I(5)}) \cup {R(j) : j \in ObjRegs}
X == ANil
Free == Len(heap) < MaxObj
\* Where a new value goes: a register that holds nothing of use, if there is one.
Dest == LET no == Regs \ ObjRegs IN IF no = {} THEN Regs ELSE no
HeldRegs == {j \in ObjRegs : heap[reg[j].i].h > 0}
\* What the host can still do in a VM that has an error.
InError == {"rel", "xrel", "acq", "hc", "gc", "fget", "fset", "have", "drop", "size", "gget", "gset", "gett", "obj", "link", "setref", "limf"}
NeedsObj == {"fset", "sset", "fget", "sget", "have", "drop", "fclr", "link", "size", "acq", "hc", "sgc", "spark", "shold", "gett", "sgc2", "seq"}
Can(kind) ==
  /\ er => kind \in InError
  /\ kind \in {"obj", "ext", "smk"} => Free
  /\ kind \in NeedsObj => ObjRegs # {}
  /\ kind \in {"have", "drop"} => \E j \in ObjRegs : \E x \in DOMAIN heap[reg[j].i].f : x.t # "o" /\ x # NameKey
  /\ kind = "setref" => ExtRegs # {}
  /\ kind \in {"rel", "sdrop"} => HeldRegs # {}
  \* a VM whose objects exceed the limit cannot be loaded under it
  /\ kind = "swap" => \A i \in 1 .. Len(heap) : Cardinality(DOMAIN heap[i].f) <= lf
  /\ kind = "xrel" => ObjRegs # HeldRegs /\ (Rich => Len(hist) * 3 > Depth * 2)
Commands(kind) ==
  CASE kind = "obj"  -> IF Free THEN {Cmd("obj", j, 0, X, X, "") : j \in Dest} ELSE {}
    [] kind = "smk"  -> IF Free THEN {Cmd("smk", j, 0, X, X, "") : j \in Dest} ELSE {}
    [] kind = "ext"  -> IF Free THEN {Cmd("ext", j, ty, X, X, "") : j \in Dest, ty \in {0, 1}} ELSE {}
    [] kind = "fset" -> {Cmd("fset", j, 0, k, v, "") : j \in ObjRegs, k \in KeysC, v \in ValsC}
    [] kind = "sset" -> {Cmd("sset", j, 0, k, v, "") : j \in ObjRegs, k \in KeysC, v \in ValsC \cup {ANil}}
    [] kind = "fget" -> {Cmd("fget", j, d, k, X, "") : j \in ObjRegs, d \in Dest, k \in KeysC}
    [] kind = "sget" -> {Cmd("sget", j, d, k, X, "") : j \in ObjRegs, d \in Dest, k \in KeysC}
    \* fields that are there, preferred
    [] kind = "have" -> UNION {{Cmd(op, j, d, k, X, "") : op \in (IF er THEN {"fget"} ELSE {"fget", "sget"}), d \in Dest,
                                k \in {x \in DOMAIN heap[reg[j].i].f : x.t # "o" /\ x # NameKey}} : j \in ObjRegs}
    [] kind = "drop" -> UNION {{Cmd("fclr", j, 0, k, X, "") : k \in {x \in DOMAIN heap[reg[j].i].f : x.t # "o" /\ x # NameKey}} : j \in ObjRegs}
    [] kind = "fclr" -> {Cmd("fclr", j, 0, k, X, "") : j \in ObjRegs, k \in KeysC}
    [] kind = "link" -> {Cmd(op, j, 0, S("next"), R(k), "") : op \in (IF er THEN {"fset"} ELSE {"fset", "sset"}), j \in ObjRegs, k \in ObjRegs}
    [] kind \in {"rel", "sdrop"} -> {Cmd(kind, j, 0, X, X, "") : j \in HeldRegs}
    [] kind = "xrel" -> {Cmd("rel", j, 0, X, X, "") : j \in ObjRegs \ HeldRegs}
    [] kind \in {"size", "acq", "hc", "sgc", "spark", "shold", "gett"} -> {Cmd(kind, j, 0, X, X, "") : j \in ObjRegs}
    [] kind = "sgc2" -> {Cmd("sgc2", j, 0, X, R(k), "") : j \in ObjRegs, k \in ObjRegs}
    [] kind = "seq"  -> {Cmd("seq", j, 0, X, R(k), "") : j \in ObjRegs, k \in ObjRegs}
    [] kind = "gset" -> {Cmd("gset", 0, 0, X, v, n) : v \in {R(j) : j \in ObjRegs} \cup {I(9)}, n \in Globals}
    [] kind = "gget" -> {Cmd("gget", 0, d, X, X, n) : d \in Dest, n \in Globals}
    [] kind = "setref" -> {Cmd("setref", j, 0, X, v, "") : j \in ExtRegs, v \in {R(k) : k \in ObjRegs} \cup {ANil}}
    [] kind = "limf" -> {Cmd("limf", 0, d, X, X, "") : d \in {1, 2, 3, 4, 6, 99}}
    [] kind = "swake" -> {Cmd("swake", 0, d, X, X, "") : d \in Dest}
    [] kind \in {"gc", "shrink", "swap", "nop"} -> {Cmd(kind, 0, 0, X, X, "")}

Val(v) == IF v.t = "r" THEN reg[v.i] ELSE v
See(v) == IF v.t = "o" THEN MkV("o", IF heap[v.i].ty >= 0 THEN heap[v.i].tag ELSE -1, 0, "") ELSE v
\* What loading v into a register shows: the value, and which object it is.
Look(v) == <<See(v)>> \o (IF v.t = "o" THEN <<I(heap[v.i].tag)>> ELSE <<>>)

NoneV == MkV("none", 0, 0, "")
Get(o, k) == IF k \in DOMAIN heap[o.i].f THEN heap[o.i].f[k] ELSE ANil
Put(h, o, k, v) == IF v.t = "n" THEN [h EXCEPT ![o.i].f = [x \in DOMAIN @ \ {k} |-> @[x]]]
                   ELSE [h EXCEPT ![o.i].f = (k :> v) @@ @]
Size(h, o) == Cardinality(DOMAIN h[o.i].f)
\* Whether setting the field is refused.
Full(o, k, v) == v.t # "n" /\ k \notin DOMAIN heap[o.i].f /\ Size(heap, o) >= lf
Refused(c) == c.op \in {"fset", "sset"} /\ Full(reg[c.r], IF c.k.t = "r" THEN reg[c.k.i] ELSE c.k, IF c.v.t = "r" THEN reg[c.v.i] ELSE c.v)
Failed == <<MkV("err", 0, 0, "")>>
Fresh(ty) == LET n == Len(heap) + 1 IN
             [f |-> (NameKey :> I(n)), tag |-> n, ty |-> ty, ref |-> ANil, h |-> 0, dead |-> FALSE]
Log(c, want) == hist' = Append(hist, [c |-> c, want |-> want])
\* After a script call, with heap h and globals gl.
Called(rg, h, gl) == heap' = h /\ g' = gl /\ reg' = Fade(rg, h, gl)
Tags(h, gl) == LET live == Reach(h, gl)
                   s == SetToSeq({i \in 1 .. Len(h) : i \notin live /\ ~h[i].dead /\ h[i].ty >= 0})
               IN [i \in 1 .. Len(s) |-> h[s[i]].tag]
Native(h, ty) == LET s == SetToSeq({i \in 1 .. Len(h) : ~h[i].dead /\ h[i].ty = ty}) IN [i \in 1 .. Len(s) |-> h[s[i]].tag]
GCWant(gl) == [gone |-> Tags(heap, gl), t0 |-> Native(Bury(heap, gl), 0), t1 |-> Native(Bury(heap, gl), 1)]

Do(c) ==
  LET o == IF c.r = 0 THEN ANil ELSE reg[c.r]
      k == Val(c.k)
      v == Val(c.v)
  IN
  CASE c.op \in {"obj", "ext"} ->
         /\ heap' = Append(heap, Fresh(IF c.op = "ext" THEN c.d ELSE -1))
         /\ reg' = [reg EXCEPT ![c.r] = Ob(Len(heap) + 1)]
         /\ UNCHANGED g /\ Log(c, <<I(Len(heap) + 1)>>)
    [] c.op = "smk" ->
         LET h == Append(heap, Fresh(-1)) IN
         \* the script may have collected before it returned, but its result is on the way to the host
         /\ heap' = h /\ g' = g /\ reg' = [Fade(reg, h, g) EXCEPT ![c.r] = Ob(Len(h))]
         /\ Log(c, <<MkV("o", -1, 0, ""), I(Len(h))>>)
    [] Refused(c) /\ c.op = "fset" -> UNCHANGED <<heap, g, reg>> /\ Log(c, Failed)
    \* what the failed call was working on stays on the stack
    [] Refused(c) /\ c.op = "sset" -> LET gl == g @@ ("s1" :> o) @@ ("s2" :> k) @@ ("s3" :> v) IN Called(reg, heap, gl) /\ Log(c, Failed)
    [] c.op = "fset" -> heap' = Put(heap, o, k, v) /\ UNCHANGED <<reg, g>> /\ Log(c, <<>>)
    [] c.op = "sset" -> LET h == Put(heap, o, k, v) IN Called(reg, h, g) /\ Log(c, <<I(Size(h, o))>>)
    [] c.op = "fget" -> LET x == Get(o, k) there == k \in DOMAIN heap[o.i].f IN
         /\ reg' = (IF there THEN [reg EXCEPT ![c.d] = x] ELSE reg) /\ UNCHANGED <<heap, g>>
         /\ Log(c, IF there THEN Look(x) ELSE <<NoneV>>)
    [] c.op = "sget" -> LET x == Get(o, k) IN
         \* the result of a call is not kept by anything either
         /\ heap' = heap /\ g' = g /\ reg' = Fade([reg EXCEPT ![c.d] = x], heap, g)
         /\ Log(c, <<See(x)>>)
    [] c.op = "fclr" -> heap' = Put(heap, o, k, ANil) /\ UNCHANGED <<reg, g>> /\ Log(c, <<>>)
    [] c.op = "size" -> UNCHANGED <<heap, reg, g>> /\ Log(c, <<I(Size(heap, o))>>)
    [] c.op = "gett" -> UNCHANGED <<heap, reg, g>> /\ Log(c, <<I(heap[o.i].ty)>>)
    [] c.op = "hc"   -> UNCHANGED <<heap, reg, g>> /\ Log(c, <<I(heap[o.i].h)>>)
    [] c.op = "acq"  -> heap' = [heap EXCEPT ![o.i].h = @ + 1] /\ UNCHANGED <<reg, g>> /\ Log(c, <<I(heap[o.i].h + 1)>>)
    [] c.op = "rel"  -> LET n == IF heap[o.i].h > 0 THEN heap[o.i].h - 1 ELSE 0 IN
         heap' = [heap EXCEPT ![o.i].h = n] /\ UNCHANGED <<reg, g>>
         /\ Log(c, IF heap[o.i].h = 0 THEN <<MkV("err", 0, 0, ""), I(0)>> ELSE <<I(n)>>)
    [] c.op = "shold" -> LET h == [heap EXCEPT ![o.i].h = @ + 1] IN Called(reg, h, g) /\ Log(c, <<I(heap[o.i].h + 1)>>)
    [] c.op = "sdrop" -> LET n == IF heap[o.i].h > 0 THEN heap[o.i].h - 1 ELSE 0
                             h == [heap EXCEPT ![o.i].h = n] IN Called(reg, h, g) /\ Log(c, <<I(n)>>)
    [] c.op = "seq"  -> Called(reg, heap, g) /\ Log(c, <<B(o = v)>>)
    [] c.op = "gset" -> g' = [g EXCEPT ![c.n] = v] /\ UNCHANGED <<heap, reg>> /\ Log(c, <<>>)
    [] c.op = "gget" -> reg' = [reg EXCEPT ![c.d] = g[c.n]] /\ UNCHANGED <<heap, g>> /\ Log(c, Look(g[c.n]))
    [] c.op = "setref" -> heap' = [heap EXCEPT ![o.i].ref = v] /\ UNCHANGED <<reg, g>> /\ Log(c, <<>>)
    [] c.op = "spark" -> LET gl == [g EXCEPT !.co = o] IN Called(reg, heap, gl) /\ Log(c, <<I(0)>>)
    [] c.op = "swake" -> LET gl == [g EXCEPT !.co = ANil]
                             x == g.co IN
         /\ heap' = heap /\ g' = gl /\ reg' = Fade([reg EXCEPT ![c.d] = x], heap, gl)
         /\ Log(c, <<See(x)>>)
    \* a collection while a script function holds the object in a local variable
    [] c.op = "sgc"  -> LET gl == g @@ ("local" :> o) IN
         /\ heap' = Bury(heap, gl) /\ g' = g /\ reg' = Fade(reg, heap, g)
         /\ Log(c, <<GCWant(gl), See(o)>>)
    \* the same with one in a coroutine's variable and one in a table key
    [] c.op = "sgc2" -> LET gl == g @@ ("local" :> o) @@ ("other" :> v) IN
         /\ heap' = Bury(heap, gl) /\ g' = g /\ reg' = Fade(reg, heap, g)
         /\ Log(c, <<GCWant(gl), See(o)>>)
    [] c.op = "gc"   ->
         /\ heap' = Bury(heap, g) /\ g' = g /\ reg' = Fade(reg, heap, g) /\ Log(c, <<GCWant(g)>>)
    [] c.op = "shrink" -> reg' = Moved(reg, heap) /\ UNCHANGED <<heap, g>> /\ Log(c, <<>>)
    [] c.op = "swap" -> reg' = Moved(reg, heap) /\ UNCHANGED <<heap, g>> /\ Log(c, <<>>)
    [] c.op \in {"nop", "limf"} -> UNCHANGED <<heap, reg, g>> /\ Log(c, <<>>)

\* Wichmann and Hill's generator.
Rnd0(s) == <<1 + ((s * 7 + 11) % 30268), 1 + ((s * 131 + 5) % 30306), 1 + ((s * 1009 + 7) % 30322)>>
RndN(r) == <<(r[1] * 171) % 30269, (r[2] * 172) % 30307, (r[3] * 170) % 30323>>
Pick(s, r) == SetToSeq(s)[1 + ((r[1] + r[2] * 3 + r[3] * 11) % Cardinality(s))]

Init == er = FALSE /\ lf = 99 /\ rnd \in {Rnd0(s) : s \in Seeds} /\ heap = <<>> /\ reg = [j \in Regs |-> ANil] /\ g = [ga |-> I(0), gb |-> I(0), co |-> ANil] /\ hist = <<>>
Errs(c) == /\ er' = (er \/ Refused(c) \/ (c.op = "rel" /\ heap[reg[c.r].i].h = 0))
           /\ lf' = (IF c.op = "limf" THEN c.d ELSE lf)
NextAll == /\ Len(hist) < Depth
           /\ \E j \in {x \in 1 .. Len(Kinds) : Can(Kinds[x])} : \E c \in Commands(Kinds[j]) : Do(c) /\ Errs(c)
           /\ UNCHANGED rnd
Nop == Cmd("nop", 0, 0, X, X, "")
NextRnd == /\ Len(hist) < Depth
           /\ rnd' = RndN(RndN(rnd))
           /\ \E j \in {Pick({x \in 1 .. Len(Kinds) : Can(Kinds[x])}, rnd)} :
              LET cs == Commands(Kinds[j]) IN
              IF cs = {} THEN Do(Nop) /\ UNCHANGED <<er, lf>> ELSE \E c \in {Pick(cs, RndN(rnd))} : Do(c) /\ Errs(c)
Report == Len(hist) = Depth => PrintT(ToJson(hist))

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
NoDangling == \A i \in Reach(heap, g) : ~heap[i].dead
HeldAlive == \A i \in 1 .. Len(heap) : heap[i].h > 0 => ~heap[i].dead
RegsAlive == \A j \in Regs : reg[j].t = "o" => ~heap[reg[j].i].dead
Named == \A i \in 1 .. Len(heap) : ~heap[i].dead => heap[i].f[NameKey] = I(i)
Laws == NoDangling /\ HeldAlive /\ RegsAlive /\ Named
=============================================================================
