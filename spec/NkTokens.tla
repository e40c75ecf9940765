------------------------------ MODULE NkTokens ------------------------------
(***************************************************************************)
(* Token sequences, for comparing the compiler with NkGrammar: every live  *)
(* sequence over Alphabet up to Most tokens, or random walks that take a   *)
(* live token when they can. With every sequence come its completion and,  *)
(* for every token of Extra, what the compiler must say of the sequence    *)
(* with that token put after it and completed as if it were fine.          *)
(***************************************************************************)
EXTENDS NkGrammar, TLC, Json
CONSTANTS Alphabet, Extra, Most, Seeds, Before

VARIABLES ts, c, rnd
vars == <<ts, c, rnd>>
Rnd0(s) == <<1 + ((s * 7 + 11) % 30268), 1 + ((s * 131 + 5) % 30306), 1 + ((s * 1009 + 7) % 30322)>>
RndN(r) == <<(r[1] * 171) % 30269, (r[2] * 172) % 30307, (r[3] * 170) % 30323>>
Num(r, n) == (r[1] + r[2] * 3 + r[3] * 11) % n

\* Prefixes that set the scene; the sequence goes on after them.
Init == \E b \in Before : ts = b /\ c = Run(Start, b) /\ rnd = <<Len(b), 0, 0>>
Add(t) == /\ ~c.bad /\ Len(ts) < Most + rnd[1]
          /\ LET d == Step(c, t) IN ~d.bad /\ c' = d
          /\ ts' = Append(ts, t) /\ UNCHANGED rnd
NextAll == \E t \in Alphabet : Add(t)

InitRnd == \E s \in Seeds : ts = <<>> /\ c = Start /\ rnd = RndN(RndN(Rnd0(s)))
\* The tokens that keep the sequence alive, one of them taken.
AlphaSeq == SetToSeq(Alphabet)
Alive == SelectSeq(AlphaSeq, LAMBDA t : LET d == Step(c, t) IN ~d.bad /\ ~Lost(d) /\ Len(d.st) < 40)
NextRnd == /\ Len(ts) < Most
           /\ LET a == Alive IN
              IF a = <<>> \/ (Num(rnd, 5) = 0 /\ ~Accepts(c))
              THEN ts' = Append(ts, Toward(c)) /\ c' = Step(c, Toward(c))
              ELSE LET t == a[1 + Num(RndN(rnd), Len(a))] IN ts' = Append(ts, t) /\ c' = Step(c, t)
           /\ rnd' = RndN(RndN(rnd))

\* ---- what is said about a sequence
Full == ts \o Finish(c)
Complete == Lost(c) \/ Accepts(Run(c, Finish(c)))
Law == Accepts(c) => ProgramLaws(ts)
After(t) == LET d == Step(c, t) IN <<t, IF d.ok THEN Finish(d) ELSE Finish(c)>>
Say ==
  PrintT(ToJson([ts |-> ts, ok |-> Accepts(c), fin |-> Finish(c), finok |-> Accepts(Run(c, Finish(c))),
    more |-> {LET a == After(t) IN [t |-> t, rest |-> a[2], ok |-> Accepts(Run(Step(c, t), a[2]))] : t \in Extra}]))
SayOnly == PrintT(ToJson([ts |-> ts, ok |-> Accepts(c)]))

\* ---- mutations of a program: one token removed, doubled, changed or two exchanged
Mut(r) ==
  LET p == Full n == Len(p) i == 1 + Num(r, n) t == AlphaSeq[1 + Num(RndN(r), Len(AlphaSeq))] IN
  CASE Num(RndN(RndN(r)), 6) = 0 -> SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, n)
    [] Num(RndN(RndN(r)), 6) = 1 -> SubSeq(p, 1, i) \o SubSeq(p, i, n)
    [] Num(RndN(RndN(r)), 6) = 2 -> SubSeq(p, 1, i) \o <<t>> \o SubSeq(p, i + 1, n)
    [] Num(RndN(RndN(r)), 6) = 3 -> IF i < n THEN SubSeq(p, 1, i - 1) \o <<p[i + 1], p[i]>> \o SubSeq(p, i + 2, n) ELSE p
    [] Num(RndN(RndN(r)), 6) = 4 -> SubSeq(p, 1, i)
    [] OTHER -> [p EXCEPT ![i] = t]
RECURSIVE Muts(_, _)
Muts(r, n) == IF n = 0 THEN <<>> ELSE <<LET m == Mut(r) IN [ts |-> m, ok |-> Program(m)]>> \o Muts(RndN(RndN(RndN(RndN(r)))), n - 1)
SayWalk == Len(ts) = Most => PrintT(ToJson([ts |-> Full, ok |-> Accepts(Run(c, Finish(c))), muts |-> Muts(RndN(rnd), 24)]))
=============================================================================
