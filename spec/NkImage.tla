------------------------------ MODULE NkImage ------------------------------
(***************************************************************************)
(* Which images a VM may take.  A host saves a VM that was set up with     *)
(* the registrations saver, and loads the image into a fresh VM set up     *)
(* with the registrations loader, possibly cut short, read through a       *)
(* reader that fails, or with a changed header.                            *)
(*                                                                         *)
(* Registrations are sets of letters: p no function "print", m no function *)
(* "mk", x one more function "extra", t no type T0, u no type T1, y one    *)
(* more type, s no subsystem (and so none of its functions and types),     *)
(* r functions in another order, z types in another order.                 *)
(*                                                                         *)
(* The program that is saved uses every function of its VM (print, mk and  *)
(* extra if it has them, mk1 and any2 always) and keeps an object of type  *)
(* T1 always and one of type T0 if it has mk.                              *)
(*                                                                         *)
(* out: "take" - it must be loaded and go on as the saved VM would;        *)
(*      "refuse" - it must be refused;                                     *)
(*      "free" - the host has types that the image does not have, or in    *)
(*      another order: refused, or loaded and right.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANTS MaxS, MaxL, Steps
VARIABLES st

Sizes == JsonDeserialize("images.json")   \* [n |-> bytes, ops |-> reads] of each image

Functions(o) == IF "s" \in o THEN {} ELSE {"ii", "any2", "mk1"} \cup (IF "p" \in o THEN {} ELSE {"print"})
                \cup (IF "m" \in o THEN {} ELSE {"mk"}) \cup (IF "x" \in o THEN {"extra"} ELSE {})
Types(o) == (IF "y" \in o THEN {"Textra"} ELSE {}) \cup
            (IF "s" \in o THEN {} ELSE {"T2"} \cup (IF "t" \in o THEN {} ELSE {"T0"}) \cup (IF "u" \in o THEN {} ELSE {"T1"}))
Subs(o) == IF "s" \in o THEN {} ELSE {"nkh"}
NeedT(o) == {"T1"} \cup (IF "m" \in o THEN {} ELSE {"T0"})

Small(S, n) == {x \in SUBSET S : Cardinality(x) <= n}
Savers == Small({"p", "m", "x", "y", "r", "z"}, MaxS)
Loaders == Small({"p", "m", "x", "t", "u", "y", "s", "r", "z"}, MaxL)

Registrations(a, b) ==
  IF ~(Functions(a) \subseteq Functions(b)) \/ ~(NeedT(a) \subseteq Types(b)) \/ ~(Subs(a) \subseteq Subs(b)) THEN "refuse"
  ELSE IF Types(a) = Types(b) /\ ("z" \in a) = ("z" \in b) THEN "take" ELSE "free"

\* The image itself: cut to a number of bytes, the read that fails, a header byte changed.
Whole == [cut |-> -1, op |-> 0, at |-> -1, bits |-> 0]
Image(i, f) == IF (f.cut >= 0 /\ f.cut < Sizes[i].n) \/ (f.op > 0 /\ f.op <= Sizes[i].ops) \/ (f.at >= 0 /\ f.bits # 0)
               THEN "refuse" ELSE "take"
Faults(i) == {[Whole EXCEPT !.cut = c] : c \in {x \in 0 .. Sizes[i].n : x % Steps = 0 \/ x < 40 \/ x > Sizes[i].n - 60}}
             \cup {[Whole EXCEPT !.op = k] : k \in {x \in 1 .. Sizes[i].ops + 1 : x % Steps = 0 \/ x < 20 \/ x > Sizes[i].ops - 20}}
             \cup {[Whole EXCEPT !.at = a, !.bits = b] : a \in 0 .. 8, b \in {1, 2, 4, 8, 16, 32, 64, 128, 255}}

Init == \/ \E a \in Savers : \E b \in Loaders : st = [k |-> "pair", a |-> a, b |-> b, i |-> 0, f |-> Whole, out |-> Registrations(a, b)]
        \/ \E i \in 1 .. Len(Sizes) : \E f \in Faults(i) : st = [k |-> "fault", a |-> {}, b |-> {}, i |-> i, f |-> f, out |-> Image(i, f)]
\* What may follow: a refused VM can only be deleted, any other goes on.
Next == \/ st.k \in {"pair", "fault"} /\ st.out \in {"take", "free"} /\ st' = [st EXCEPT !.k = "on"]
        \/ st.k \in {"pair", "fault"} /\ st.out \in {"refuse", "free"} /\ st' = [st EXCEPT !.k = "deleted"]
        \/ st.k = "on" /\ st' = [st EXCEPT !.k = "deleted"]
Report == st.k \in {"pair", "fault"} => PrintT(ToJson([st EXCEPT !.a = SetToSeq(@), !.b = SetToSeq(@)]))

(***************************************************************************)
(* Laws: a VM set up the same way takes it, in any order; having more      *)
(* functions never makes a difference; a damaged image is never taken.     *)
(***************************************************************************)
Order == \A a \in Savers : \A b \in {{}, {"r"}} : Registrations(a, (a \ {"r"}) \cup b) = "take"
More == \A a \in Savers : \A b \in Loaders : Registrations(a, b) = Registrations(a, b \cup {"x"}) \/ "x" \in a
Never == st.k = "on" => ~(st.i > 0 /\ st.f.cut >= 0 /\ st.f.cut < Sizes[st.i].n)
Laws == Never
ASSUME Order /\ More
=============================================================================
