------------------------------ MODULE NkGrammar ------------------------------
(***************************************************************************)
(* Which token sequences are programs.                                     *)
(*                                                                         *)
(* A deterministic pushdown recogniser. A configuration holds a stack of   *)
(* symbols that are still expected, the scopes that are open, and one      *)
(* level for every expression that is open. Step(c, t) takes one token.    *)
(* A sequence is a program if its tokens lead from Start to a              *)
(* configuration that Accepts.                                             *)
(*                                                                         *)
(* Tokens are strings: their own text, and "#int", "#flt", "#str", "#bad"  *)
(* for numbers, strings and what is no token at all. Every other string    *)
(* is an identifier.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

Words == {"var", "function", "return", "if", "else", "while", "do", "for", "break", "nil", "newobject"}
Forms == {"len", "object", "yield", "resume", "coroutine", "is_finished"}
Marks == {"(", ")", "[", "]", "{", "}", ",", ";", ".", "->"}
Binary == {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "===", "&&", "||", "="}
Incs == {"++", "--"}
Fixed == Words \cup Forms \cup Marks \cup Binary \cup Incs \cup {"!", "#int", "#flt", "#str", "#bad"}
IsId(t) == t \notin Fixed
Enders == {")", "]", ",", ";"}
Plain == {"#int", "#flt", "#str", "nil", "newobject"}       \* values that are one token

\* How many arguments the function-style expressions take.
FewestArgs(f) == CASE f \in {"len", "resume", "is_finished"} -> 1 [] OTHER -> 0
MostArgs(f) == CASE f = "object" -> 0 [] f \in {"len", "is_finished", "yield"} -> 1 [] f = "resume" -> 2 [] OTHER -> 1000

(***************************************************************************)
(* Configurations                                                          *)
(***************************************************************************)
Sy(k) == [k |-> k, n |-> "", i |-> 0]
SyN(k, n) == [k |-> k, n |-> n, i |-> 0]
SyI(k, n, i) == [k |-> k, n |-> n, i |-> i]
T(t) == SyN("t", t)                        \* exactly this token
Scope(loop, fn, vs) == [loop |-> loop, fn |-> fn, v |-> vs]
\* ops: an operator has been seen on this level. inc: there is an increment in it.
\* k, ci: what the current operand is, and whether there is an increment in it.
\* pre: the prefix operators before it: none, "neg" or, with ++ or -- next to it, "inc".
\* base: it is not a part of the level below it, but of a statement of its own.
Level(base) == [ops |-> FALSE, inc |-> FALSE, k |-> "", ci |-> FALSE, pre |-> "", base |-> base]
\* ok: the tokens so far have the right form. bad: but they say something that is
\* not allowed, which no later token makes good.
Start == [ok |-> TRUE, bad |-> FALSE, st |-> <<Sy("top")>>, sc |-> <<Scope(FALSE, FALSE, {})>>, ex |-> <<>>, last |-> ""]
Dead == [ok |-> FALSE, bad |-> TRUE, st |-> <<>>, sc |-> <<>>, ex |-> <<>>, last |-> ""]

TopOf(s) == s[Len(s)]
Pop1(s) == SubSeq(s, 1, Len(s) - 1)
Mind(good, c) == IF good THEN c ELSE [c EXCEPT !.bad = TRUE]
\* Replaces the top symbol with l, whose first element comes first.
Swap(c, l) == [c EXCEPT !.st = Pop1(@) \o Reverse(l)]
Lv(c) == TopOf(c.ex)
SetLv(c, lv) == [c EXCEPT !.ex[Len(c.ex)] = lv]

\* The scopes a name is looked up in: out to the function, and the outermost.
RECURSIVE Reach(_, _)
Reach(sc, i) == IF i = 1 THEN {1} ELSE IF sc[i].fn THEN {i, 1} ELSE {i} \cup Reach(sc, i - 1)
Seen(c) == Reach(c.sc, Len(c.sc))
Declared(c, x) == \E i \in Seen(c) : x \in c.sc[i].v
InLoop(c) == \E i \in Seen(c) : c.sc[i].loop
InFn(c) == \E i \in Seen(c) : c.sc[i].fn
Declare(c, x) == Mind(x \notin TopOf(c.sc).v, [c EXCEPT !.sc[Len(c.sc)].v = @ \cup {x}])
Open(c, s) == [c EXCEPT !.sc = Append(@, s)]
Shut(c) == [c EXCEPT !.sc = Pop1(@)]

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
IsPlace(k) == k \in {"id", "place"}
\* The operand on top, with its prefix operators, is complete.
\* What remains is <<ok, kind, has an increment>>.
Operand(lv) ==
  CASE lv.k \in Forms -> <<lv.pre = "" /\ ~lv.ops, lv.k, lv.ci>>
    [] lv.pre = "inc" -> <<IsPlace(lv.k) /\ ~lv.ci, "value", TRUE>>
    [] lv.pre = "neg" -> <<TRUE, "value", lv.ci>>
    [] OTHER -> <<TRUE, lv.k, lv.ci>>
\* The whole level is complete.
Result(lv) == LET o == Operand(lv) IN <<o[1], IF lv.ops THEN "value" ELSE o[2], lv.inc \/ o[3]>>
\* A level that is used as a value is closed.
Use(c) == LET r == Result(Lv(c)) IN Mind(r[1] /\ r[2] \notin Forms, [c EXCEPT !.ex = Pop1(@)])
\* A level is closed that belongs to the operand of the level around it.
Within(c, kind) ==
  LET r == Result(Lv(c)) IN
  LET d == Mind(r[1] /\ (kind = "paren" \/ r[2] \notin Forms), [c EXCEPT !.ex = Pop1(@)]) IN
  CASE kind = "paren" -> SetLv(d, [Lv(d) EXCEPT !.k = r[2], !.ci = r[3]])
    [] kind = "index" -> SetLv(d, [Lv(d) EXCEPT !.k = "place", !.ci = @ \/ r[3]])
    [] OTHER -> SetLv(d, [Lv(d) EXCEPT !.ci = @ \/ r[3]])

SetKind(c, k) == SetLv(c, [Lv(c) EXCEPT !.k = k])

\* An operand has to begin here.
Begin(c, t) ==
  LET lv == Lv(c) IN
  CASE t \in {"-", "!"} -> Mind(lv.pre # "inc", SetLv(c, [lv EXCEPT !.pre = "neg"]))
    [] t \in Incs -> Mind(lv.pre # "inc", SetLv(c, [lv EXCEPT !.pre = "inc"]))
    [] t \in Plain -> SetKind(Swap(c, <<Sy("after")>>), "value")
    [] t \in Forms -> SetKind(Swap(c, <<Sy("after")>>), t)
    [] t = "(" -> Swap(c, <<Sy("expr"), T(")"), SyN("!within", "paren"), Sy("after")>>)
    [] t = "function" -> SetKind(Swap(c, <<T("("), Sy("!enter"), Sy("params"), Sy("stmt"), Sy("!shut"), Sy("after")>>), "value")
    [] IsId(t) -> Mind(Declared(c, t), SetKind(Swap(c, <<Sy("after")>>), "id"))
    [] OTHER -> Dead

\* An operand has ended, unless something is appended to it. Not for enders.
Continue(c, t) ==
  LET lv == Lv(c) IN
  LET named == lv.k \notin Forms IN
  CASE t = "(" /\ ~named -> SetKind(Swap(c, <<SyI("args", lv.k, 0), Sy("after")>>), "value")
    [] t = "[" -> Swap(Mind(named, c), <<Sy("expr"), T("]"), SyN("!within", "index"), Sy("after")>>)
    [] t = "(" -> SetKind(Swap(c, <<SyI("args", "", 0), Sy("after")>>), "value")
    [] t = "." -> SetKind(Swap(Mind(named, c), <<Sy("name"), Sy("after")>>), "place")
    [] t = "->" -> SetKind(Swap(Mind(named, c), <<Sy("name"), T("("), SyI("args", "", 0), Sy("after")>>), "value")
    [] t \in Incs -> Mind(IsPlace(lv.k) /\ ~lv.ci, SetLv(c, [lv EXCEPT !.k = "value", !.ci = TRUE]))
    [] t \in Binary ->
         LET o == Operand(lv) IN
         Mind(named /\ o[1] /\ (t = "=" => (~lv.ops /\ IsPlace(o[2]))),
              SetLv(Swap(c, <<Sy("begin")>>), [lv EXCEPT !.ops = TRUE, !.inc = @ \/ o[3], !.k = "", !.ci = FALSE, !.pre = ""]))
    [] OTHER -> Dead

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
\* What is expected now without consuming a token.
RECURSIVE Settle(_)
Settle(c) ==
  IF ~c.ok THEN Dead ELSE
  LET s == TopOf(c.st) d == Swap(c, <<>>) IN
  CASE s.k = "!use" -> Settle(Use(d))
    [] s.k = "!within" -> Settle(Within(d, s.n))
    [] s.k = "!declare" -> Settle(Declare(d, s.n))
    [] s.k = "!open" -> Settle(Open(d, Scope(s.n = "loop", FALSE, {})))
    [] s.k = "!enter" -> Settle(Open(d, Scope(FALSE, TRUE, {"_functionId"})))
    [] s.k = "!hidden" -> Settle(Declare(Declare(d, "_argumentCount"), "_returnPointer"))
    [] s.k = "!shut" -> Settle(Shut(d))
    [] OTHER -> c

RECURSIVE Take(_, _)
\* t at the symbol on top. Where a symbol may be left out, t is for the next.
Take(c, t) ==
  IF ~c.ok THEN Dead ELSE
  LET s == TopOf(c.st) IN
  CASE s.k = "t" -> IF t = s.n THEN Swap(c, <<>>) ELSE Dead
    [] s.k = "name" -> IF IsId(t) THEN Swap(c, <<>>) ELSE Dead
    [] s.k = "top" -> IF t = "}" THEN Dead ELSE Take([c EXCEPT !.st = Append(@, Sy("stmt"))], t)
    [] s.k = "block" -> IF t = "}" THEN Swap(c, <<>>) ELSE Take([c EXCEPT !.st = Append(@, Sy("stmt"))], t)
    [] s.k = "else" -> IF t = "else" THEN Swap(c, <<SyN("!open", ""), Sy("stmt"), Sy("!shut")>>)
                       ELSE Take(Settle(Swap(c, <<>>)), t)
    [] s.k = "stmt" ->
         (CASE t = "var" -> Swap(c, <<Sy("var")>>)
            [] t = "return" -> Swap(Mind(InFn(c), c), <<Sy("expr"), Sy("!use"), T(";")>>)
            [] t = "{" -> Swap(c, <<SyN("!open", ""), Sy("block"), Sy("!shut")>>)
            [] t = "if" -> Swap(c, <<T("("), Sy("expr"), Sy("!use"), T(")"), SyN("!open", ""), Sy("stmt"), Sy("!shut"), Sy("else")>>)
            [] t = "while" -> Swap(c, <<SyN("!open", "loop"), T("("), Sy("expr"), Sy("!use"), T(")"),
                                        SyN("!open", ""), Sy("stmt"), Sy("!shut"), Sy("!shut")>>)
            [] t = "do" -> Swap(c, <<SyN("!open", "loop"), SyN("!open", ""), Sy("stmt"), Sy("!shut"), T("while"), T("("),
                                     Sy("expr"), Sy("!use"), T(")"), Sy("!shut"), T(";")>>)
            [] t = "for" -> Swap(c, <<SyN("!open", "loop"), SyN("!open", ""), T("("), Sy("stmt"), Sy("expr"), Sy("!use"), T(";"),
                                      Sy("expr"), Sy("!use"), T(")"), SyN("!open", ""), Sy("stmt"), Sy("!shut"), Sy("!shut"), Sy("!shut")>>)
            [] t = "break" -> Swap(Mind(InLoop(c), c), <<T(";")>>)
            [] t = "function" -> Swap(c, <<Sy("fun")>>)
            [] OTHER -> Take(Swap(c, <<Sy("expr"), Sy("!use"), T(";")>>), t))
    [] s.k = "var" -> IF IsId(t) THEN Swap(Mind(t \notin TopOf(c.sc).v, c), <<SyN("init", t)>>) ELSE Dead
    [] s.k = "init" -> IF t = "=" THEN Swap(c, <<Sy("expr"), Sy("!use"), SyN("!declare", s.n), T(";")>>)
                       ELSE IF t = ";" THEN Swap(c, <<SyN("!declare", s.n)>>) ELSE Dead
    [] s.k = "fun" -> IF IsId(t)
                      THEN Swap(c, <<SyN("!declare", t), T("("), Sy("!enter"), Sy("params"), Sy("stmt"), Sy("!shut")>>)
                      ELSE Take(Take(Swap(c, <<Sy("expr"), Sy("!use"), T(";")>>), "function"), t)
    [] s.k = "params" -> IF IsId(t) THEN Swap(Mind(t \notin {"_argumentCount", "_returnPointer"}, Declare(c, t)), <<Sy("sep")>>)
                         ELSE IF t = ")" THEN Swap(c, <<Sy("!hidden")>>) ELSE Dead
    [] s.k = "sep" -> IF t = "," THEN Swap(c, <<Sy("params")>>) ELSE IF t = ")" THEN Swap(c, <<Sy("!hidden")>>) ELSE Dead
    [] s.k = "args" -> IF t = ")" THEN Swap(Mind(s.n = "" \/ s.i >= FewestArgs(s.n), c), <<>>)
                       ELSE Take(Swap(Mind(s.n = "" \/ s.i < MostArgs(s.n), c), <<Sy("expr"), SyN("!within", "arg"), SyI("argsep", s.n, s.i + 1)>>), t)
    [] s.k = "argsep" -> IF t = "," THEN Swap(c, <<SyI("args", s.n, s.i)>>)
                         ELSE Take(Swap(c, <<SyI("args", s.n, s.i)>>), IF t = ")" THEN t ELSE "#bad")
    [] s.k = "expr" -> Take([Swap(c, <<Sy("begin")>>) EXCEPT !.ex = Append(@, Level(c.st[Len(c.st) - 1].k = "!use"))], t)
    [] s.k = "begin" -> Begin(c, t)
    [] s.k = "after" -> IF t \in Enders THEN Take(Settle(Swap(c, <<>>)), t) ELSE Continue(c, t)
    [] OTHER -> Dead

\* Strings that follow each other are one.
Step(c, t) ==
  IF t = "#str" /\ c.ok /\ c.last = "#str" THEN c
  ELSE LET d == Settle(Take(c, t)) IN IF d.ok THEN [d EXCEPT !.last = t] ELSE Dead

Run(c, ts) == FoldLeft(Step, c, ts)

\* Everything that may be left out is left out.
RECURSIVE Rest(_)
Rest(c) == IF c.ok /\ TopOf(c.st).k = "else" THEN Rest(Settle(Swap(c, <<>>))) ELSE c
Formed(c) == c.ok /\ TopOf(Rest(c).st).k = "top"
Accepts(c) == Formed(c) /\ ~Rest(c).bad
Program(ts) == Accepts(Run(Start, ts))

(***************************************************************************)
(* A live configuration can be completed: one more token of Finish         *)
(***************************************************************************)
Spare(c) == CHOOSE x \in {"v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"} : x \notin TopOf(c.sc).v
RECURSIVE Below(_, _), Toward(_)
Below(c, i) == IF c.st[i].k \in {"t", "argsep"} THEN c.st[i] ELSE Below(c, i - 1)
Toward(c) ==
  LET s == TopOf(c.st) IN
  CASE s.k = "t" -> s.n
    [] s.k \in {"name", "var"} -> Spare(c)
    [] s.k = "init" -> ";"
    [] s.k = "block" -> "}"
    [] s.k = "else" -> Toward(Settle(Swap(c, <<>>)))
    [] s.k = "fun" -> "("
    [] s.k \in {"params", "sep"} -> ")"
    [] s.k = "args" -> IF s.n # "" /\ s.i < FewestArgs(s.n) THEN "#int" ELSE ")"
    [] s.k = "argsep" -> IF s.n # "" /\ s.i < FewestArgs(s.n) THEN "," ELSE ")"
    [] s.k = "after" ->
         LET lv == Lv(c) n == Below(c, Len(c.st) - 1) IN
         IF lv.k \in Forms THEN "("
         ELSE IF lv.pre = "inc" /\ ~IsPlace(lv.k) THEN "."
         ELSE IF n.k = "argsep" THEN (IF n.n # "" /\ n.i < FewestArgs(n.n) THEN "," ELSE ")")
         ELSE n.n
    [] s.k \in {"stmt", "expr", "begin"} -> "#int"
    [] OTHER -> "#int"
RECURSIVE FinishN(_, _)
FinishN(c, n) == IF n = 0 \/ Formed(c) \/ ~c.ok THEN <<>> ELSE LET t == Toward(c) IN <<t>> \o FinishN(Step(c, t), n - 1)
Finish(c) == FinishN(c, 60)
\* The only configurations that are not bad and cannot be completed: an
\* increment's operand already holds an increment.
Lost(c) ==
  \/ \E i \in 1 .. Len(c.ex) : c.ex[i].pre = "inc" /\
       \E j \in i .. Len(c.ex) : /\ \A m \in i + 1 .. j : ~c.ex[m].base
                                 /\ c.ex[j].ci \/ (j > i /\ (c.ex[j].inc \/ c.ex[j].pre = "inc"))

(***************************************************************************)
(* What must hold of every program, said in another way                    *)
(***************************************************************************)
Pair(o) == CASE o = "(" -> ")" [] o = "[" -> "]" [] OTHER -> "}"
Nest(stack, t) ==
  IF stack = <<"!">> THEN stack
  ELSE IF t \in {"(", "[", "{"} THEN Append(stack, Pair(t))
  ELSE IF t \in {")", "]", "}"} THEN (IF stack # <<>> /\ TopOf(stack) = t THEN Pop1(stack) ELSE <<"!">>)
  ELSE stack
Balanced(ts) == FoldLeft(Nest, <<>>, ts) = <<>>
\* Every name is declared before it is used; fields and methods are not names.
Named(ts, i) == IsId(ts[i]) /\ ~(i > 1 /\ ts[i - 1] \in {"var", "function", ".", "->"})
DeclaredBefore(ts, i) ==
  \E j \in 1 .. i - 1 : ts[j] = ts[i] /\ j > 1 /\ ts[j - 1] \in {"var", "function", "(", ","}
Hidden == {"_functionId", "_argumentCount", "_returnPointer"}
ProgramLaws(ts) ==
  /\ Balanced(ts)
  /\ ts # <<>> => ts[Len(ts)] \in {";", "}"}
  /\ \A i \in 1 .. Len(ts) : (Named(ts, i) /\ ts[i] \notin Hidden)
       => (DeclaredBefore(ts, i) \/ (i > 1 /\ ts[i - 1] \in {"(", ","} /\ \E j \in 1 .. i - 1 : ts[j] = "function"))
  /\ \A i \in 1 .. Len(ts) : /\ ts[i] = "return" => \E j \in 1 .. i - 1 : ts[j] = "function"
                             /\ ts[i] = "break" => \E j \in 1 .. i - 1 : ts[j] \in {"while", "do", "for"}
                             /\ ts[i] = "else" => \E j \in 1 .. i - 1 : ts[j] = "if"
==============================================================================
