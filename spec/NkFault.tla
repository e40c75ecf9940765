------------------------------ MODULE NkFault ------------------------------
(***************************************************************************)
(* Allocation failures.  A host uses one VM by any sequence of API calls;  *)
(* at any point the allocator may say no.                                  *)
(*                                                                         *)
(* First part: which sequences of calls there are (the same commands that  *)
(* NkLife and NkHost give meaning to, and the rest of the interface), as   *)
(* far as needed to know when each may be used.  TLC enumerates them.      *)
(*                                                                         *)
(* Second part: what a run with a failure must look like, given the run of *)
(* the same commands without one: the same up to the failing request;      *)
(* control comes back from the call in progress and the VM says it failed; *)
(* from then on every call does nothing; deletion cleans every native      *)
(* object exactly once and the subsystem once and returns every block.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Depth, Cmds, Seeds

VARIABLES st, obs, exts, held, img, hist, rnd, q
vars == <<st, obs, exts, held, img, hist, rnd, q>>

(***************************************************************************)
(* st: none - new - lib (compiler) - comp (something compiled) - ready -   *)
(* done, or libx (no compiler, for loading).  obs, exts: registers that    *)
(* hold plain and native objects; held: those with a handle; img: an image *)
(* was made.  err: the VM has an error (kept as a flag in st "bad").       *)
(***************************************************************************)
Regs == {1, 2, 3}
Can(op) ==
  CASE op \in {"new", "up", "upx"} -> st = "none"
    [] op \in {"lib", "libx"} -> st = "new"
    [] op \in {"good", "gmake", "regfc", "file", "bad"} -> st \in {"lib", "comp"}
    [] op = "repl" -> st \in {"lib"}
    [] op = "fin" -> st = "comp"
    [] op \in {"part", "run", "shrink", "iter"} -> st \in {"ready", "done"}
    [] op = "ser" -> st \in {"ready", "done"}
    [] op \in {"add", "make", "drop", "text", "cstart", "cnext", "cb", "deep", "build", "cbmk", "fn", "method", "boom", "num"} -> st = "done"
    [] op \in {"obj", "ext", "conv", "setr", "regt", "regf", "fnval", "find", "halloc", "iterx"} -> st \notin {"none", "new"}
    [] op \in {"fset", "fget", "fclr", "size", "acq", "sett", "gett", "setref", "spark"} -> obs \cup exts # {} /\ (op # "spark" \/ st = "done")
    [] op = "rel" -> held # {}
    [] op = "load" -> st = "libx" /\ hist[Len(hist)].op \in {"libx", "upx"}     \* a fresh VM
    [] op \in {"gset", "gget"} -> st \in {"ready", "done"}
    [] op \in {"adderr", "adderrx", "dump", "gc", "lims", "err"} -> st # "none"
    [] OTHER -> FALSE
\* registers a command may use
Args(op) ==
  CASE op \in {"obj", "ext"} -> Regs
    [] op \in {"fset", "fget", "fclr", "size", "sett", "gett", "setref", "spark"} -> obs \cup exts
    [] op = "acq" -> {r \in obs \cup exts : r \notin held}
    [] op = "rel" -> held
    [] OTHER -> {0}
\* registers whose object is not held may be gone after a collection: forget them
Gone(op) == op \in {"gc", "part", "run", "iter", "add", "make", "drop", "text", "cstart", "cnext", "cb", "deep", "build", "cbmk", "fn", "method", "boom", "num", "spark"}
Do(op, r) ==
  /\ st' = CASE op = "new" -> "new" [] op = "up" -> "ready" [] op = "upx" -> "libx" [] op = "lib" -> "lib" [] op = "libx" -> "libx"
             [] op = "load" -> "done" [] op \in {"good", "file"} -> "comp" [] op = "fin" -> "ready"
             [] op \in {"run"} -> "done" [] op = "bad" -> "comp" [] OTHER -> st
  /\ obs' = (IF op = "obj" THEN obs \cup {r} ELSE IF op = "ext" THEN obs \ {r} ELSE IF Gone(op) THEN obs \cap held ELSE IF op = "shrink" THEN obs \cap held ELSE obs)
  /\ exts' = (IF op = "ext" THEN exts \cup {r} ELSE IF op = "obj" THEN exts \ {r} ELSE IF Gone(op) THEN exts \cap held ELSE IF op = "shrink" THEN exts \cap held ELSE exts)
  /\ held' = (IF op \in {"obj", "ext"} THEN held \ {r} ELSE IF op = "acq" THEN held \cup {r} ELSE IF op = "rel" THEN held \ {r} ELSE held)
  /\ img' = (img \/ op = "ser")
  /\ hist' = Append(hist, [op |-> op, r |-> r])
  /\ q' = q

Rnd0(s) == <<1 + ((s * 7 + 11) % 30268), 1 + ((s * 131 + 5) % 30306), 1 + ((s * 1009 + 7) % 30322)>>
RndN(r) == <<(r[1] * 171) % 30269, (r[2] * 172) % 30307, (r[3] * 170) % 30323>>
Pick(s, r) == SetToSeq(s)[1 + ((r[1] + r[2] * 3 + r[3] * 11) % Cardinality(s))]
OpSet == {Cmds[k] : k \in 1 .. Len(Cmds)}

Init == rnd \in {Rnd0(s) : s \in Seeds} /\ st = "none" /\ obs = {} /\ exts = {} /\ held = {} /\ img = FALSE /\ hist = <<>> /\ q = 0
NextRnd == /\ Len(hist) < Depth /\ rnd' = RndN(RndN(rnd))
           /\ LET can == {k \in 1 .. Len(Cmds) : Can(Cmds[k]) /\ Args(Cmds[k]) # {}} IN
              /\ can # {}
              /\ \E k \in {Pick(can, rnd)} : \E r \in {Pick(Args(Cmds[k]), RndN(rnd))} : Do(Cmds[k], r)
NextAll == Len(hist) < Depth /\ \E op \in OpSet : Can(op) /\ \E r \in Args(op) : Do(op, r) /\ UNCHANGED rnd
ReportH == Len(hist) = Depth => PrintT(ToJson(hist))
Registers == obs \cap exts = {} /\ held \subseteq obs \cup exts

(***************************************************************************)
(* Runs.  Each: [ref, flt, at, last]: two sequences of events <<command    *)
(* number, kind, text>>, the number of the command in which the request    *)
(* failed, and the number of the one that deletes the VM.  ref is the run  *)
(* without a failure up to the request that is refused.  Kinds: mem (the   *)
(* requests and releases since the last event, as a digest), fail (the     *)
(* request was refused), alloc (a request after that), call, mk, cleanup,  *)
(* subclean, done (command finished: text "ok" or "no"), state (what the   *)
(* host is told: failed or not, and the memory in use), del (text: blocks  *)
(* left), left (native objects and subsystems never cleaned up); anything  *)
(* else is something the host saw.                                         *)
(***************************************************************************)
Runs == JsonDeserialize("runs.json")
R == Runs[q]
Bad(a, m, e) == [a EXCEPT !.bad = m \o " (command " \o ToString(e[1]) \o ", " \o e[2] \o " " \o e[3] \o ")"]
Clean(a, e) == IF e[3] \in a.clean THEN Bad(a, "a native object was cleaned up twice", e)
               ELSE IF e[3] \notin a.made THEN Bad(a, "a native object was cleaned up that was never made", e)
               ELSE [a EXCEPT !.clean = @ \cup {e[3]}]
Sub(a, e) == IF a.sub = 1 THEN Bad(a, "the subsystem was cleaned up twice", e) ELSE [a EXCEPT !.sub = 1]
Note(a, e) == CASE e[2] = "mk" -> [a EXCEPT !.made = @ \cup {e[3]}]
                [] e[2] = "cleanup" -> Clean(a, e)
                [] e[2] = "subclean" -> Sub(a, e)
                [] OTHER -> a
\* what nobody may see of a VM that has failed
Silent == {"call", "mk", "alloc", "fail", "enter", "tag"}
\* the end of the VM
Final(a, e) == CASE e[2] = "cleanup" -> Clean(a, e)
                [] e[2] = "subclean" -> Sub(a, e)
                [] e[2] = "del" -> IF e[3] # "0" THEN Bad(a, "deletion did not return every block", e) ELSE [a EXCEPT !.ph = "gone"]
                [] e[2] \in Silent -> Bad(a, "a failed VM did something while it was deleted", e)
                [] OTHER -> a
StepE(x, e, ref, at, last) ==
  IF x.bad # "" THEN x ELSE
  CASE x.ph = "same" ->
       IF e[2] = "fail" THEN (IF e[1] # at THEN Bad(x, "failed in another command", e)
                              ELSE IF x.n # Len(ref) THEN Bad(x, "not what happens without a failure", e)
                              ELSE [x EXCEPT !.ph = IF at = last THEN "last" ELSE "failing"])
       ELSE IF x.n + 1 > Len(ref) \/ ref[x.n + 1] # e THEN Bad(x, "not what happens without a failure", e)
       ELSE Note([x EXCEPT !.n = @ + 1], e)
    [] x.ph = "failing" ->
       IF e[1] # at THEN Bad(x, "the command in progress did not finish", e)
       ELSE CASE e[2] \in Silent -> Bad(x, "went on after the failure", e)
              [] e[2] \in {"cleanup", "subclean"} -> Bad(x, "cleaned up after the failure", e)
              [] e[2] = "done" /\ e[3] \notin {"no", "ok regf", "ok rcompiled"} -> Bad(x, "the call in progress reported success", e)   \* (what was registered, or compiled, first)
              [] e[2] = "state" -> IF e[3] = "fine" THEN Bad(x, "the failure was not reported", e)
                                   ELSE [x EXCEPT !.ph = "failed", !.state = e[3]]
              [] OTHER -> x
    [] x.ph = "failed" ->
       IF e[1] = last THEN Final(x, e)
       ELSE CASE e[2] \in Silent -> Bad(x, "a failed VM did something", e)
              [] e[2] \in {"cleanup", "subclean"} -> Bad(x, "a failed VM cleaned up before it was deleted", e)
              [] e[2] = "done" /\ e[3] # "no" -> Bad(x, "a call on a failed VM reported success", e)
              [] e[2] = "state" /\ e[3] # x.state -> Bad(x, "a failed VM's state changed from " \o x.state, e)
              [] OTHER -> x
    [] x.ph = "last" -> Final(x, e)
    [] x.ph = "gone" -> IF e[2] = "left" /\ e[3] # "0 0" THEN Bad(x, "native objects and subsystems never cleaned up", e) ELSE x
Start == [ph |-> "same", made |-> {}, clean |-> {}, sub |-> 0, state |-> "", n |-> 0, bad |-> ""]
Judge(r) == LET x == FoldLeft(LAMBDA a, e : StepE(a, e, r.ref, r.at, r.last), Start, r.flt) IN
            IF x.bad # "" THEN x.bad
            ELSE IF x.ph # "gone" THEN "the run ended " \o x.ph
            ELSE IF x.clean # x.made THEN "native objects never cleaned up"
            ELSE ""
InitR == q \in 1 .. Len(Runs) /\ st = "run" /\ obs = {} /\ exts = {} /\ held = {} /\ img = FALSE /\ hist = <<>> /\ rnd = <<>>
NextR == FALSE /\ UNCHANGED vars
ReportR == LET j == Judge(R) IN IF j = "" THEN TRUE ELSE PrintT(ToJson([q |-> q, bad |-> j]))
=============================================================================
