------------------------------ MODULE NkLimits ------------------------------
(***************************************************************************)
(* Programs under limits on the stack and on the number of fields.         *)
(*                                                                         *)
(* What a program would do without a stack limit is what NkLang says. On   *)
(* the way, lo is the largest number of values that any one of its stacks  *)
(* must have held at once (variables, and what a call needs to return),    *)
(* and hi a number that it certainly did not exceed. Stacks grow by        *)
(* doubling, so a limit counts for the largest power of two within it, and *)
(* never for more than the built-in limit.                                 *)
(*                                                                         *)
(*   over    the limit is below lo: it must stop with an error, having     *)
(*           done a part of what it does without the limit                 *)
(*   fits    the limit is not below hi: it must do everything              *)
(*   either  one of the two, and the more the larger the limit             *)
(*                                                                         *)
(* The limit on fields is exact, and part of NkLang (p.maxf).              *)
(***************************************************************************)
EXTENDS NkLang
CONSTANT Macro
VARIABLES pid, x
Progs == JsonDeserialize("progs.json")

BuiltIn == 65536
RECURSIVE Pow(_, _)
Pow(c, lim) == IF 2 * c > lim THEN c ELSE Pow(2 * c, lim)
Cap(lim) == IF lim < 0 \/ lim >= BuiltIn THEN BuiltIn ELSE Pow(1, lim)

Frames(q) == Len(SelectSeq(q.k, LAMBDA t : t[1] \in {"R", "CR", "LV", "HR"}))
Lo(q) == Len(q.vars) + 2 * Len(SelectSeq(q.k, LAMBDA t : t[1] = "R"))
Hi(q) == 8 + 2 * (Len(q.st) + Len(q.vars)) + 6 * Frames(q)
RECURSIVE XSteps(_, _, _)
XSteps(p, y, n) ==
  IF n = 0 \/ y.m.stat # "run" THEN y
  ELSE LET q == Step(p, y.m) IN XSteps(p, [m |-> q, lo |-> Max2(y.lo, Lo(q)), hi |-> Max2(y.hi, Hi(q))], n - 1)

Init == pid \in 1 .. Len(Progs) /\ x = [m |-> Machine0, lo |-> 0, hi |-> 0]
Next == /\ x.m.stat = "run"
        /\ x' = XSteps(Progs[pid], x, Macro)
        /\ UNCHANGED pid
Endless(p) == "endless" \in DOMAIN p /\ p.endless
Verdict(p, lim) == IF Cap(lim) < x.lo \/ Endless(p) THEN "over"
                   ELSE IF Cap(lim) >= x.hi /\ x.m.stat \in {"end", "err"} THEN "fits" ELSE "either"
Report == x.m.stat # "run" =>
  LET p == Progs[pid] m == x.m IN
  PrintT(ToJson([pid |-> pid, stat |-> m.stat, out |-> m.out, err |-> m.err, n |-> m.n, lo |-> x.lo, hi |-> x.hi,
                 verdict |-> [i \in 1 .. Len(p.limits) |-> Verdict(p, p.limits[i])]]))
m0 == x.m
\* No object ever has more fields than allowed.
FieldBound == "maxf" \in DOMAIN Progs[pid] => \A i \in 1 .. Len(m0.heap) : Cardinality(DOMAIN m0.heap[i].f) <= Progs[pid].maxf
\* An endless program never ends by itself.
NeverEnds == Endless(Progs[pid]) => m0.stat \in {"run", "limit"}
Laws == /\ CleanEnd(m0) /\ NoDangling(m0) /\ Chained(m0) /\ Framed(m0) /\ OneEnd(m0)
        /\ FieldBound /\ NeverEnds /\ x.lo <= x.hi
=============================================================================
