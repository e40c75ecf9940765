------------------------------ MODULE NkBudget ------------------------------
(***************************************************************************)
(* The instruction budget.  The VM looks at its budget once per collection *)
(* interval: countdown c is the number of instructions until the next      *)
(* look, r what is left of the budget (-1: no budget).                     *)
(*                                                                         *)
(* First part: the machine itself, for every small budget and interval,    *)
(* with the host setting budget and interval at any point: it is stopped   *)
(* within one interval of the budget and never without one.                *)
(*                                                                         *)
(* Second part: what that means for a program of which the costs are       *)
(* known: which of its parts must have run, which may have, and whether    *)
(* it must have been stopped.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxB, MaxG, MaxN
VARIABLES g, c, r, b, n, gmax, st, q
vars == <<g, c, r, b, n, gmax, st, q>>

(***************************************************************************)
(* The machine.  n counts the instructions executed since the budget b was *)
(* set; gmax is the largest interval in force since then.                  *)
(***************************************************************************)
Max(x, y) == IF x > y THEN x ELSE y
Init == /\ g \in 1 .. MaxG /\ c \in 1 .. g /\ r = -1 /\ b = -1 /\ n = 0 /\ gmax = g /\ st = "run" /\ q = 0
SetBudget == \E x \in 0 .. MaxB : b' = x /\ r' = x /\ n' = 0 /\ gmax' = g /\ q' = 0 /\ UNCHANGED <<g, c, st>>
\* (each change while the budget is being used can cost up to an interval: one is allowed)
SetInterval == q = 0 /\ q' = (IF r >= 0 THEN 1 ELSE 0) /\ \E x \in 1 .. MaxG : g' = x /\ c' = (IF c > x THEN x ELSE c) /\ gmax' = Max(gmax, x) /\ UNCHANGED <<r, b, n, st>>
Instr == IF c > 1 THEN c' = c - 1 /\ n' = n + 1 /\ UNCHANGED <<g, r, b, gmax, st>>
         ELSE IF r >= 0 /\ r < g THEN st' = "stopped" /\ r' = 0 /\ c' = g /\ UNCHANGED <<g, b, n, gmax>>
         ELSE /\ r' = (IF r < 0 THEN r ELSE r - g) /\ c' = g /\ n' = n + 1 /\ UNCHANGED <<g, b, gmax, st>>
Next == st = "run" /\ n < MaxN /\ ((Instr /\ UNCHANGED q) \/ SetInterval \/ (r = -1 /\ SetBudget))
Stops == st = "stopped" => b >= 0 /\ n + gmax >= b
\* with the interval left alone it is also not late
InTime == b >= 0 /\ st = "run" /\ gmax = g => n <= b + gmax
OnlyThen == b = -1 => st = "run"

(***************************************************************************)
(* Scenarios: [b, g, parts], each part [lo, hi]: bounds of its cost.       *)
(***************************************************************************)
Scenarios == JsonDeserialize("scenarios.json")
RECURSIVE Sum(_, _, _)
Sum(ps, k, f) == IF k = 0 THEN 0 ELSE Sum(ps, k - 1, f) + (IF f = "lo" THEN ps[k].lo ELSE ps[k].hi)
Of(s) == LET N == Len(s.parts) IN
         IF s.b < 0 THEN [must |-> N, may |-> N, stop |-> "no"]
         ELSE [must |-> Cardinality({k \in 1 .. N : Sum(s.parts, k, "hi") < s.b - s.g}),
               may |-> Cardinality({k \in 1 .. N : Sum(s.parts, k, "lo") <= s.b + s.g}),
               stop |-> IF Sum(s.parts, N, "hi") < s.b - s.g THEN "no"
                        ELSE IF Sum(s.parts, N, "lo") > s.b + s.g THEN "yes" ELSE "may"]
InitS == q \in 1 .. Len(Scenarios) /\ g = 1 /\ c = 1 /\ r = -1 /\ b = -1 /\ n = 0 /\ gmax = 1 /\ st = "scenario"
NextS == FALSE /\ UNCHANGED vars
Report == PrintT(ToJson([q |-> q, of |-> Of(Scenarios[q])]))
Sound == LET o == Of(Scenarios[q]) IN o.must <= o.may
=============================================================================
