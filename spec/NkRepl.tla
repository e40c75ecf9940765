------------------------------- MODULE NkRepl -------------------------------
(***************************************************************************)
(* An interactive session: a host that hands one input after the other to  *)
(* a compiler, runs each, and recovers after every error.                  *)
(*                                                                         *)
(* The host steps of NkLang, and                                           *)
(*   line n   compiles and runs unit n                                     *)
(*   bad      compiles something that is not a script: nothing happens     *)
(*   call s   calls a global function, and recovers if it fails            *)
(*   done     follows line and call: reached only if they did not fail     *)
(*   shrink   gives back unused memory: nothing happens                    *)
(*                                                                         *)
(* Recovery ends the failed input and every coroutine it was running: they *)
(* cannot be resumed. Whatever it did before stays. The names it was going *)
(* to declare further on are there, with the value 0.                      *)
(***************************************************************************)
EXTENDS NkLang
CONSTANT Macro
VARIABLES pid, m
Progs == JsonDeserialize("progs.json")

Done(q, n, msg, at) == Event(q, [ev |-> "rdone", n |-> n, msg |-> msg, at |-> at])
TopNames(p, n) == LET l == p.nodes[n].l IN
  {p.nodes[l[i]].s : i \in {j \in 1 .. Len(l) : p.nodes[l[j]].k \in {"decl", "fun"}}}
RECURSIVE Active(_, _)
Active(q, c) == IF c <= 1 THEN {} ELSE {c} \cup Active(q, q.co[c].par)

Recover(p, q) ==
  LET h == p.host[q.hp - 1]
      e == q.err[1]
      act == Active(q, q.cx)
      dead(c) == [k |-> <<>>, st |-> <<>>, vars |-> <<>>, fb |-> 0, dep |-> 0, par |-> 0, state |-> "invalid", ob |-> q.co[c].ob]
      late == IF h.op = "line" THEN TopNames(p, h.n) \ DOMAIN q.g ELSE {}
      q1 == [q EXCEPT !.stat = "run", !.err = <<>>, !.k = <<>>, !.st = <<>>, !.vars = <<>>, !.fb = 0, !.dep = 0, !.cx = 1,
                      !.co = [c \in 1 .. Len(@) |-> IF c \in act THEN dead(c) ELSE @[c]],
                      !.g = [x \in late |-> I(0)] @@ @, !.hp = @ + 1]
      q2 == IF h.op = "call" THEN Event(q1, [ev |-> "ret", err |-> 1, v |-> ANil]) ELSE q1
  IN Done(q2, 1, e.msg, e.at)

SessionStep(p, q) ==
  IF q.k # <<>> \/ q.hp > Len(p.host) THEN Step(p, q)
  ELSE LET h == p.host[q.hp] q1 == [q EXCEPT !.hp = @ + 1] IN
  CASE h.op = "line" -> [q1 EXCEPT !.k = <<It("LST", h.n, 1, 0, 0)>>]
    [] h.op = "bad" -> Done(q1, 1, "*", "?")
    [] h.op = "done" -> Done(q1, 0, "", "")
    [] h.op = "shrink" -> q1
    [] h.op = "call" -> IF q.g[h.s].t = "fn" THEN Step(p, q)
                        ELSE Fail(q1, "Tried to call a non-function with nkiVmCallFunction.", "*")
    [] OTHER -> Step(p, q)

RStep(p, q) ==
  LET q1 == IF q.stat = "run" /\ q.n <= MaxSteps THEN SessionStep(p, q) ELSE Step(p, q)
  IN IF q1.stat = "err" THEN Recover(p, q1) ELSE q1
RECURSIVE RSteps(_, _, _)
RSteps(p, q, n) == IF n = 0 \/ q.stat # "run" THEN q ELSE RSteps(p, RStep(p, q), n - 1)

Init == pid \in 1 .. Len(Progs) /\ m = Machine0
Next == /\ m.stat = "run"
        /\ m' = RSteps(Progs[pid], m, Macro)
        /\ UNCHANGED pid
Report == m.stat # "run" => PrintT(ToJson([pid |-> pid, stat |-> m.stat, out |-> m.out, err |-> m.err, n |-> m.n]))

\* Between two inputs nothing of the previous one is left.
Idle == m.stat = "run" /\ m.k = <<>> =>
        /\ m.st = <<>> /\ m.vars = <<>> /\ m.cx = 1 /\ m.dep = 0 /\ m.fb = 0
        /\ \A c \in 2 .. Len(m.co) : m.co[c].par = 0
Laws == CleanEnd(m) /\ NoDangling(m) /\ Chained(m) /\ Framed(m) /\ Idle /\ m.stat # "err"
\* What is declared stays declared, and the past stays as it was.
Kept == /\ DOMAIN m.g \subseteq DOMAIN m'.g
        /\ SubSeq(m'.out, 1, Len(m.out)) = m.out
        /\ \A c \in 1 .. Len(m.co) : m.co[c].state \in {"done", "invalid"} => m'.co[c].state = m.co[c].state
Lasting == [][Kept]_m
=============================================================================
