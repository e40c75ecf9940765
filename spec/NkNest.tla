------------------------------- MODULE NkNest -------------------------------
(***************************************************************************)
(* Nested sources. A source is built from the inside out: an expression,   *)
(* wrapped in expressions, printed, wrapped in statements. v is the value  *)
(* that is printed if the compiler takes the source. It must take up to    *)
(* Surely levels of anything, must refuse more than Never, and what it     *)
(* takes it must take with fewer levels too.                               *)
(*                                                                         *)
(* A shape is a pattern of expression wrappers and one of statement        *)
(* wrappers, each repeated up to a number of levels.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Seeds, Surely, Never

EKinds == <<"paren", "neg", "not", "plus", "chain", "id", "field", "method", "call", "first", "second", "index", "anon", "assign", "less", "and">>
SKinds == <<"block", "if", "ifbare", "else", "elsebare", "elseif", "while", "for", "do", "fun">>
\* The value of the wrapped expression.
Wrap(k, x) ==
  CASE k = "neg" -> -x
    [] k = "not" -> IF x = 0 THEN 1 ELSE 0
    [] k \in {"plus", "chain"} -> x + 1
    [] k = "index" -> 1
    [] k = "less" -> IF x < 3 THEN 1 ELSE 0
    [] k = "and" -> IF x # 0 THEN 1 ELSE 0
    [] OTHER -> x

Rnd0(s) == <<1 + ((s * 7 + 11) % 30268), 1 + ((s * 131 + 5) % 30306), 1 + ((s * 1009 + 7) % 30322)>>
RndN(r) == <<(r[1] * 171) % 30269, (r[2] * 172) % 30307, (r[3] * 170) % 30323>>
Num(r, n) == (r[1] + r[2] * 3 + r[3] * 11) % n
RECURSIVE Rs(_, _)
Rs(r, n) == IF n = 0 THEN <<>> ELSE <<r>> \o Rs(RndN(r), n - 1)
Pattern(kinds, rs) == [i \in 1 .. Len(rs) |-> kinds[1 + Num(rs[i], Len(kinds))]]
Shape(s) ==
  LET r == Rs(RndN(RndN(Rnd0(s))), 20)
      ep == Pattern(EKinds, SubSeq(r, 1, 1 + Num(r[13], 4)))
      sp == Pattern(SKinds, SubSeq(r, 6, 6 + Num(r[14], 3)))
      size == CASE Num(r[15], 8) \in {0, 1} -> Num(r[16], Surely + 1)
                [] Num(r[15], 8) \in {2, 3, 4} -> Surely + Num(r[16], Never - Surely)
                [] Num(r[15], 8) = 5 -> Never + 1 + Num(r[16], 60)
                [] Num(r[15], 8) = 6 -> 1000 + Num(r[16], 2000)
                [] OTHER -> 8000 + Num(r[16], 8000)
      part == Num(r[17], 3)
      es == CASE part = 0 -> size [] part = 1 -> 0 [] OTHER -> Num(r[18], size + 1)
  IN [ep |-> ep, sp |-> sp, es |-> es, ss |-> size - es, v0 |-> Num(r[19], 5)]

VARIABLES sh, e, s, v
Init == \E z \in Seeds : sh = Shape(z) /\ e = 0 /\ s = 0 /\ v = sh.v0
Depth == e + s
Deepen == Depth <= Never
WrapE == /\ Deepen /\ e < sh.es
         /\ v' = Wrap(sh.ep[1 + (e % Len(sh.ep))], v) /\ e' = e + 1 /\ UNCHANGED <<sh, s>>
WrapS == /\ Deepen /\ e = sh.es /\ s < sh.ss
         /\ s' = s + 1 /\ UNCHANGED <<sh, e, v>>
Next == WrapE \/ WrapS
Complete == e = sh.es /\ s = sh.ss
Verdict == IF Depth > Never THEN "refuse" ELSE IF Depth <= Surely THEN "take" ELSE "either"
Report == ~ENABLED Next => PrintT(ToJson([sh |-> sh, verdict |-> Verdict, v |-> v]))
\* A shape that is given up on is one that must be refused.
Laws == ~ENABLED Next => (Complete \/ Verdict = "refuse")
=============================================================================
