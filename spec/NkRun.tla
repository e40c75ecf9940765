------------------------------- MODULE NkRun -------------------------------
(* Runs every program of progs.json to its end and prints what it does. *)
EXTENDS NkLang
CONSTANT Macro      \* machine steps per transition
VARIABLES pid, m
Progs == JsonDeserialize("progs.json")
Init == pid \in 1 .. Len(Progs) /\ m = Machine0
Next == /\ m.stat = "run"
        /\ m' = Steps(Progs[pid], m, Macro)
        /\ UNCHANGED pid
Report == m.stat # "run" => PrintT(ToJson([pid |-> pid, stat |-> m.stat, out |-> m.out, err |-> m.err, n |-> m.n]))
Laws == CleanEnd(m) /\ NoDangling(m) /\ Chained(m) /\ Framed(m) /\ OneEnd(m)
=============================================================================
