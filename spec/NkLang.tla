------------------------------ MODULE NkLang ------------------------------
(***************************************************************************)
(* What a Ninkasi program does, one small step at a time.                  *)
(*                                                                         *)
(* A program is an abstract syntax table (see nkv/gen.py):                 *)
(*   nodes  sequence of [k, a, b, c, d, l, s, v, at]; a .. d and l refer   *)
(*          to other nodes, `at` is the "file:line" of the statement       *)
(*   fns    sequence of [args, body]                                       *)
(*   host   what the host does, in order (see HostStep)                    *)
(*                                                                         *)
(* The machine m has                                                       *)
(*   k      what is left to do in the running coroutine (top last)         *)
(*   st     its operands; vars its local variables; fb where the current   *)
(*          call's variables start; dep the block nesting in that call     *)
(*   cx     the running coroutine; co all of them (the running one's entry *)
(*          is out of date while it runs)                                  *)
(*   heap   objects; g globals; out what the host has seen so far          *)
(***************************************************************************)
EXTENDS NkValue, Json, SequencesExt

CONSTANT MaxSteps

ANil == MkV("n", 0, 0, "")
Top(s) == s[Len(s)]
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
TakeLast(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

It(op, n, a, b, c) == <<op, n, a, b, c>>
It1(op, n) == <<op, n, 0, 0, 0>>
\* Puts items on the work stack so that the first one is done first.
Todo(m, items) == [m EXCEPT !.k = @ \o Reverse(items)]
Push(m, v) == [m EXCEPT !.st = Append(@, v)]
PopV(m, n) == [m EXCEPT !.st = Drop(@, n)]

NoObj == [f |-> <<>>, tag |-> -1, ty |-> -1, co |-> 0, ref |-> ANil, h |-> 0, dead |-> FALSE]
NewObj(m, o) == [m EXCEPT !.heap = Append(@, o)]
Ref(m) == Ob(Len(m.heap))

(***************************************************************************)
(* What the host sees of a value.                                          *)
(***************************************************************************)
See(m, v) == IF v.t = "o" THEN MkV("o", m.heap[v.i].tag, 0, "") ELSE IF v.t = "fn" THEN MkV("fn", 0, 0, "") ELSE v
SeeAll(m, vs) == [i \in 1 .. Len(vs) |-> See(m, vs[i])]
Event(m, e) == [m EXCEPT !.out = Append(@, e)]
CallEv(m, f, args) == Event(m, [ev |-> "call", f |-> f, args |-> SeeAll(m, args)])

(***************************************************************************)
(* Errors: the program stops; native calls in progress return.             *)
(***************************************************************************)
RECURSIVE LvIn(_, _)
LvIn(k, i) == IF i = 0 THEN 0 ELSE (IF k[i][1] = "LV" THEN 1 ELSE 0) + LvIn(k, i - 1)
RECURSIVE LvAll(_, _)
LvAll(m, c) == IF c = 0 THEN 0
               ELSE LvIn(IF c = m.cx THEN m.k ELSE m.co[c].k, Len(IF c = m.cx THEN m.k ELSE m.co[c].k)) + LvAll(m, m.co[c].par)
RECURSIVE Leaves(_, _)
Leaves(m, n) == IF n = 0 THEN m ELSE Leaves(Event(m, [ev |-> "leave", err |-> 1]), n - 1)
Fail(m, msg, at) ==
  LET m1 == Leaves(m, LvAll(m, m.cx))
  IN [m1 EXCEPT !.stat = "err", !.err = Append(@, [msg |-> msg, at |-> at])]
Outside(m) == [m EXCEPT !.stat = "out"]
\* Goes on with the value r, unless it is an error or outside the specification.
With(m, r, at, go(_)) == IF r.t = "err" THEN Fail(m, r.s, at) ELSE IF r.t = "out" THEN Outside(m) ELSE go(r)

(***************************************************************************)
(* Variables.                                                              *)
(***************************************************************************)
RECURSIVE FindLocal(_, _, _)
FindLocal(m, x, i) == IF i <= m.fb THEN 0 ELSE IF m.vars[i][1] = x THEN i ELSE FindLocal(m, x, i - 1)
Local(m, x) == FindLocal(m, x, Len(m.vars))
Load(m, x) == LET i == Local(m, x) IN IF i > 0 THEN m.vars[i][2] ELSE m.g[x]
Store(m, x, v) == LET i == Local(m, x) IN
                  IF i > 0 THEN [m EXCEPT !.vars[i] = <<x, v>>] ELSE [m EXCEPT !.g[x] = v]
AtRoot(m) == m.cx = 1 /\ m.dep = 0
Declare(m, x, v) == IF AtRoot(m) THEN [m EXCEPT !.g = (x :> v) @@ @] ELSE [m EXCEPT !.vars = Append(@, <<x, v>>)]

(***************************************************************************)
(* Objects.                                                                *)
(***************************************************************************)
KeyOK(key) == ~(key.t = "f" /\ key.s # "")   \* -0 and nan keys are left open
Field(m, o, key) == IF key \in DOMAIN m.heap[o.i].f THEN m.heap[o.i].f[key] ELSE ANil
SetField(m, o, key, v) ==
  IF v.t = "n" THEN [m EXCEPT !.heap[o.i].f = [x \in DOMAIN @ \ {key} |-> @[x]]]
  ELSE [m EXCEPT !.heap[o.i].f = (key :> v) @@ @]
NFields(m, o) == Cardinality(DOMAIN m.heap[o.i].f)
\* Whether a new field would be one more than the host allows (p.maxf, if it set a limit).
Full(p, m, o, key, v) == "maxf" \in DOMAIN p /\ v.t # "n" /\ key \notin DOMAIN m.heap[o.i].f /\ NFields(m, o) >= p.maxf

(***************************************************************************)
(* Reachability, as a collection sees it.                                  *)
(***************************************************************************)
IdsOf(vs) == {vs[i].i : i \in {j \in 1 .. Len(vs) : vs[j].t = "o"}}
VarVals(vars) == [i \in 1 .. Len(vars) |-> vars[i][2]]
StackIds(m, c) ==
  IF c = m.cx THEN IdsOf(m.st) \cup IdsOf(VarVals(m.vars)) ELSE IdsOf(m.co[c].st) \cup IdsOf(VarVals(m.co[c].vars))
SetIds(vs) == {v.i : v \in {w \in vs : w.t = "o"}}
Succ(m, i) ==
  LET o == m.heap[i] IN
  SetIds(DOMAIN o.f) \cup SetIds({o.f[x] : x \in DOMAIN o.f})
  \cup (IF o.ref.t = "o" THEN {o.ref.i} ELSE {})
  \cup (IF o.co > 0 THEN StackIds(m, o.co) \cup (IF m.co[o.co].par > 1 THEN {m.co[m.co[o.co].par].ob} ELSE {}) ELSE {})
RECURSIVE Closure(_, _, _)
Closure(m, seen, new) ==
  IF new = {} THEN seen
  ELSE LET nx == UNION {Succ(m, i) : i \in new} \ (seen \cup new) IN Closure(m, seen \cup new, nx)
GlobalIds(m) == SetIds({m.g[x] : x \in DOMAIN m.g})
Roots(m) == GlobalIds(m) \cup StackIds(m, 1) \cup (IF m.cx > 1 THEN {m.co[m.cx].ob} ELSE {})
            \cup {i \in 1 .. Len(m.heap) : m.heap[i].h > 0 /\ ~m.heap[i].dead}
Reach(m) == Closure(m, {}, Roots(m))
Collect(m) ==
  LET live == Reach(m)
      gone == {i \in 1 .. Len(m.heap) : i \notin live /\ ~m.heap[i].dead}
      native == SetToSeq({j \in gone : m.heap[j].tag >= 0})
  IN Event([m EXCEPT !.heap = [i \in 1 .. Len(@) |-> IF i \in gone THEN [@[i] EXCEPT !.dead = TRUE] ELSE @[i]]],
           [ev |-> "gc", gone |-> [i \in 1 .. Len(native) |-> m.heap[native[i]].tag]])

(***************************************************************************)
(* Native functions of the test library.                                   *)
(***************************************************************************)
NatNames == <<"print", "ii", "is", "z", "fl", "any2", "ob", "mk", "mk1", "tag", "setref", "getref", "gc",
              "hold", "drop", "hcount", "fail", "oom", "call", "bump", "count", "chk">>
NatFn(j) == Fn(-j)
NatTypes(f) ==    \* the registered argument types; <<"*">> takes anything
  CASE f = "ii" -> <<"i", "i">> [] f = "is" -> <<"i", "s">> [] f = "z" -> <<>> [] f = "fl" -> <<"f">>
    [] f = "any2" -> <<"", "">> [] f = "ob" -> <<"o">> [] f = "tag" -> <<"o">> [] f = "setref" -> <<"o", "">>
    [] f = "getref" -> <<"o">> [] f = "gc" -> <<>> [] f = "hold" -> <<"">> [] f = "drop" -> <<"">>
    [] f = "hcount" -> <<"">> [] f = "oom" -> <<>> [] f = "bump" -> <<>> [] OTHER -> <<"*">>
WantsT0 == {"tag", "setref", "getref"}
LongName(t) == TypeName(MkV(t, 0, 0, ""))
RECURSIVE BadArg(_, _, _, _)
BadArg(m, f, args, i) ==   \* "" or the error
  LET ty == NatTypes(f) IN
  IF i > Len(args) THEN ""
  ELSE IF ty[i] # "" /\ ty[i] # args[i].t THEN
    "Incorrect argument type in call to " \o f \o ". Expected " \o LongName(ty[i]) \o " but got "
      \o TypeName(args[i]) \o " for argument " \o ToString(i - 1) \o "."
  ELSE IF ty[i] = "o" /\ f \in WantsT0 /\ m.heap[args[i].i].ty # 0 THEN
    "Bad external object type passed to external function " \o f \o " for argument " \o ToString(i - 1) \o "."
  ELSE BadArg(m, f, args, i + 1)

NatResult(m, f, args, at) ==
  CASE f = "print" -> Push(CallEv(m, f, args), I(0))
    [] f = "ii" -> Push(CallEv(m, f, args), args[1])
    [] f = "is" -> Push(CallEv(m, f, args), args[2])
    [] f = "any2" -> Push(CallEv(m, f, args), args[2])
    [] f \in {"ob", "fl"} -> Push(CallEv(m, f, args), args[1])
    [] f = "z" -> Push(CallEv(m, f, args), I(0))
    [] f \in {"mk", "mk1"} ->
         LET c == IF Len(args) > 0 THEN ToInt(args[1]) ELSE I(m.ntag) IN
         IF c.t = "out" THEN Outside(m)
         ELSE LET tg == IF IsBad(c) THEN 0 ELSE c.i
                  ty == IF f = "mk" THEN 0 ELSE 1
                  m1 == NewObj(m, [NoObj EXCEPT !.tag = tg, !.ty = ty])
                  m2 == IF Len(args) > 0 THEN m1 ELSE [m1 EXCEPT !.ntag = @ + 1]
              IN IF IsBad(c) THEN Fail(m, c.s, at)
                 ELSE Push(Event(m2, [ev |-> "mk", tag |-> tg, k |-> ty]), Ref(m2))
    [] f = "tag" -> Push(Event(m, [ev |-> "tag", tag |-> m.heap[args[1].i].tag]), I(m.heap[args[1].i].tag))
    [] f = "setref" -> Push([m EXCEPT !.heap[args[1].i].ref = args[2]], I(0))
    [] f = "getref" -> Push(m, m.heap[args[1].i].ref)
    [] f = "gc" -> Push(Collect(m), I(0))
    [] f = "hold" -> IF args[1].t = "o" THEN Push([m EXCEPT !.heap[args[1].i].h = @ + 1], args[1])
                     ELSE Fail(m, "*", at)
    [] f = "drop" -> IF args[1].t = "o" /\ m.heap[args[1].i].h > 0 THEN Push([m EXCEPT !.heap[args[1].i].h = @ - 1], I(0))
                     ELSE Fail(m, "*", at)
    [] f = "hcount" -> IF args[1].t = "o" THEN Push(m, I(m.heap[args[1].i].h)) ELSE Fail(m, "*", at)
    [] f = "fail" -> IF Len(args) = 0 THEN Fail(m, "fail", at)
                     ELSE LET t == ToText(args[1]) IN IF IsBad(t) THEN Fail(m, "*", at) ELSE Fail(m, t.s, at)
    [] f = "bump" -> Push([m EXCEPT !.cnt = @ + 1], I(m.cnt + 1))
    [] f = "count" -> IF Len(args) = 2 THEN Push(CallEv(m, f, args), I(2)) ELSE Fail(m, "Bad argument count in count", at)
    [] f = "chk" -> IF Len(args) # 2 THEN Fail(m, "chk: Expected 2 arguments, but passed " \o ToString(Len(args)) \o ".", at)
                    ELSE IF args[1].t # "i" THEN Fail(m, "chk: Argument 0: Expected integer but passed " \o TypeName(args[1]) \o ".", at)
                    ELSE IF args[2].t # "s" THEN Fail(m, "chk: Argument 1: Expected string but passed " \o TypeName(args[2]) \o ".", at)
                    ELSE Push(CallEv(m, f, args), I(1))
    [] OTHER -> Outside(m)

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
ExecKey == S("_exec")
DataKey == S("_data")
\* [f, args, n]: the function an object stands for, and its arguments.
RECURSIVE Redirect(_, _, _, _)
Redirect(m, f, args, n) ==
  IF f.t # "o" \/ n > 10 THEN [f |-> f, args |-> args, n |-> n]
  ELSE IF n = 10 THEN [f |-> f, args |-> args, n |-> 11]
  ELSE LET d == Field(m, f, DataKey) IN
       Redirect(m, Field(m, f, ExecKey), IF d.t = "n" THEN args ELSE <<d>> \o args, n + 1)

BadCount(want, got) == "Incorrect argument count for function call. Expected: " \o ToString(want) \o " Found: " \o ToString(got)

\* Enters script function number j. What was called stays on the stack for
\* as long as the call lasts.
Enter(p, m, j, f0, args) ==
  LET fd == p.fns[j] IN
  [m EXCEPT !.fb = Len(m.vars), !.dep = 1, !.st = Append(@, f0),
            !.vars = @ \o [i \in 1 .. Len(args) |-> <<fd.args[i], args[i]>>],
            !.k = @ \o <<It("R", m.fb, Len(m.vars), m.dep, Len(m.st)), It1("S", fd.body)>>]

RECURSIVE Invoke(_, _, _, _, _)
Invoke(p, m, f0, args0, at) ==
  LET r == Redirect(m, f0, args0, 0) IN
  IF r.n > 10 THEN Fail(m, "Too many callable object redirections.", at)
  ELSE IF r.f.t # "fn" THEN Fail(m, "Tried to call something that is not a function id or a callable object.", at)
  ELSE IF r.f.i > 0 THEN
    LET fd == p.fns[r.f.i] IN
    IF Len(fd.args) # Len(r.args) THEN Fail(m, BadCount(Len(fd.args), Len(r.args)), at)
    ELSE Enter(p, m, r.f.i, f0, r.args)
  ELSE
    LET f == NatNames[-r.f.i] ty == NatTypes(f) IN
    IF ty # <<"*">> /\ Len(ty) # Len(r.args) THEN
      Fail(m, "Tried to call an external function " \o f \o " with an incorrect number of arguments.", at)
    ELSE LET bad == IF ty = <<"*">> THEN "" ELSE BadArg(m, f, r.args, 1) IN
      IF bad # "" THEN Fail(m, bad, at)
      ELSE IF f = "call" THEN
        IF Len(r.args) = 0 THEN Push(m, I(0))
        ELSE IF Len(r.args) > 9 THEN Outside(m)
        ELSE LET m1 == [Event(m, [ev |-> "enter"]) EXCEPT !.k = Append(@, It("LV", 0, Len(m.st), 0, 0)),
                                                          !.st = @ \o <<f0>> \o r.args]
                 fn == r.args[1] IN
             IF fn.t # "fn" THEN Fail(m1, "Tried to call a non-function with nkiVmCallFunction.", at)
             ELSE Invoke(p, m1, fn, Tail(r.args), "*")
      ELSE IF f = "gc" \/ f = "hold" THEN
        \* the arguments are still on the stack while the native function runs
        LET m1 == NatResult([m EXCEPT !.st = @ \o <<f0>> \o r.args], f, r.args, at)
        IN IF m1.stat = "run" THEN [m1 EXCEPT !.st = Append(Drop(@, Len(r.args) + 2), Top(@))] ELSE m1
      ELSE NatResult(m, f, r.args, at)

\* Leaves the call in progress with value v.
RECURSIVE Unwind(_, _)
Unwind(k, ops) == IF Top(k)[1] \in ops THEN k ELSE Unwind(Drop(k, 1), ops)

(***************************************************************************)
(* Coroutines.                                                             *)
(***************************************************************************)
Park(m) == [k |-> m.k, st |-> m.st, vars |-> m.vars, fb |-> m.fb, dep |-> m.dep,
            par |-> m.co[m.cx].par, state |-> m.co[m.cx].state, ob |-> m.co[m.cx].ob]
\* Makes coroutine c the running one.
Switch(m, c) ==
  LET m1 == [m EXCEPT !.co[m.cx] = Park(m)] n == m1.co[c]
  IN [m1 EXCEPT !.cx = c, !.k = n.k, !.st = n.st, !.vars = n.vars, !.fb = n.fb, !.dep = n.dep]
NewCoroutine(p, m, f0, args0, at) ==
  LET r == Redirect(m, f0, args0, 0) IN
  IF r.n > 10 THEN Fail(m, "Too many callable object redirections.", at)
  ELSE IF r.f.t # "fn" THEN Fail(m, "Tried to call something that is not a function id or a callable object.", at)
  ELSE IF r.f.i < 0 THEN Fail(m, "Cannot create a coroutine from an external function.", at)
  ELSE LET fd == p.fns[r.f.i] IN
    IF Len(fd.args) # Len(r.args) THEN Fail(m, BadCount(Len(fd.args), Len(r.args)), at)
    ELSE LET c == [k |-> <<It1("CR", 0), It1("S", fd.body)>>, st |-> <<f0>>,
                   vars |-> [i \in 1 .. Len(r.args) |-> <<fd.args[i], r.args[i]>>],
                   fb |-> 0, dep |-> 1, par |-> 0, state |-> "new", ob |-> Len(m.heap) + 1]
             m1 == [NewObj(m, [NoObj EXCEPT !.co = Len(m.co) + 1]) EXCEPT !.co = Append(@, c)]
         IN Push(m1, Ref(m1))
Finish(m, v) ==
  LET par == m.co[m.cx].par
      m1 == [m EXCEPT !.k = <<>>, !.st = <<>>, !.vars = <<>>, !.fb = 0]
      m2 == Switch(m1, par)
  IN Push([m2 EXCEPT !.co[m.cx].state = "done", !.co[m.cx].par = 0], v)
Yield(m, v, at) ==
  IF m.cx = 1 THEN Fail(m, "Tried to yield from the root execution context.", at)
  ELSE IF LvIn(m.k, Len(m.k)) > 0 THEN Outside(m)
  ELSE LET par == m.co[m.cx].par m2 == Switch(m, par)
       IN Push([m2 EXCEPT !.co[m.cx].par = 0], v)
Resume(m, c, v, at) ==
  IF c.t # "o" THEN Fail(m, "*", at)
  ELSE IF m.heap[c.i].co = 0 THEN Fail(m, "Tried to resume something that is not a coroutine.", at)
  ELSE LET n == m.heap[c.i].co s == m.co[n].state IN
    IF s = "done" THEN Push(m, ANil)
    ELSE IF s = "invalid" THEN Fail(m, "Tried to resume an invalid coroutine.", at)
    ELSE IF n = m.cx \/ m.co[n].par # 0 THEN Fail(m, "Tried to recursively resume an active coroutine.", at)
    ELSE LET m1 == Switch([m EXCEPT !.co[n].par = m.cx, !.co[n].state = "run"], n)
         IN IF s = "new" THEN m1 ELSE Push(m1, v)

(***************************************************************************)
(* Expressions.                                                            *)
(***************************************************************************)
NoField == "Attempted to get a field on a value that is not an object."
NoSet == "Attempted to set a field on a value that is not an object."
Evals(l) == [i \in 1 .. Len(l) |-> It1("E", l[i])]

Eval(p, m, n) ==
  LET N == p.nodes[n] IN
  CASE N.k = "lit"  -> Push(m, N.v)
    [] N.k = "var"  -> Push(m, Load(m, N.s))
    [] N.k = "bin"  -> Todo(m, <<It1("E", N.a), It1("E", N.b), It1("BIN", n)>>)
    [] N.k = "un"   -> Todo(m, <<It1("E", N.a), It1("UN", n)>>)
    [] N.k = "set"  -> Todo(m, <<It1("E", N.a), It1("STO", n)>>)
    [] N.k = "fset" -> Todo(m, <<It1("E", N.c), It1("E", N.a), It1("E", N.b), It1("FSET", n)>>)
    [] N.k = "get"  -> Todo(m, <<It1("E", N.a), It1("E", N.b), It1("FGET", n)>>)
    [] N.k = "inc"  ->      \* a: the place, s: + or -, b: 1 if the old value is wanted
         LET lv == p.nodes[N.a]
             one == It1("ONE", 0)
             st  == IF lv.k = "var" THEN <<It1("STO", N.a)>> ELSE <<It1("E", lv.a), It1("E", lv.b), It1("FSET", n)>>
             old == IF N.b = 1 THEN <<one, It1("UNINC", n)>> ELSE <<>>
         IN Todo(m, <<It1("E", N.a), one, It1("BIN", n)>> \o st \o old)
    [] N.k = "call" -> Todo(m, <<It1("E", N.a)>> \o Evals(N.l) \o <<It1("CALL", n)>>)
    [] N.k = "self" -> Todo(m, <<It1("E", N.a), It1("E", N.b), It1("FPEEK", n)>> \o Evals(N.l) \o <<It1("SELF", n)>>)
    [] N.k = "new"  -> LET m1 == NewObj(m, NoObj) IN Push(m1, Ref(m1))
    [] N.k = "co"   -> Todo(m, <<It1("E", N.a)>> \o Evals(N.l) \o <<It1("CO", n)>>)
    [] N.k = "yield" -> Todo(m, (IF N.a = 0 THEN <<It1("NIL", 0)>> ELSE <<It1("E", N.a)>>) \o <<It1("YLD", n)>>)
    [] N.k = "resume" -> Todo(m, <<It1("E", N.a)>> \o (IF N.b = 0 THEN <<It1("NIL", 0)>> ELSE <<It1("E", N.b)>>) \o <<It1("RSM", n)>>)
    [] N.k = "fin"  -> Todo(m, <<It1("E", N.a), It1("FIN", n)>>)
    [] N.k = "len"  -> Todo(m, <<It1("E", N.a), It1("LEN", n)>>)

(***************************************************************************)
(* Statements.                                                             *)
(***************************************************************************)
Loop(m) == It("LOOP", 0, Len(m.vars), m.dep, 0)
Scope(m) == It("PV", 0, Len(m.vars), m.dep, 0)
Exec(p, m, n) ==
  LET N == p.nodes[n] IN
  CASE N.k = "expr" -> Todo(m, <<It1("E", N.a), It1("POP", 0)>>)
    [] N.k = "decl" -> IF N.a = 0 THEN Declare(m, N.s, I(0)) ELSE Todo(m, <<It1("E", N.a), It1("DCL", n)>>)
    [] N.k = "fun"  -> Declare(m, N.s, N.v)
    [] N.k = "blk"  -> [Todo(m, <<It("LST", n, 1, 0, 0), Scope(m)>>) EXCEPT !.dep = @ + 1]
    [] N.k = "if"   -> Todo(m, <<It1("E", N.a), It1("IF", n)>>)
    [] N.k = "while" -> Todo(m, <<It1("WHL", n), Loop(m)>>)
    [] N.k = "do"   -> Todo(m, <<It1("SC", N.a), It1("DOC", n), Loop(m)>>)
    [] N.k = "for"  -> [Todo(m, <<It1("S", N.a), It1("FOR", n), Loop(m)>>) EXCEPT !.dep = @ + 1]
    [] N.k = "break" -> LET k == Unwind(m.k, {"LOOP"}) IN
                        [m EXCEPT !.k = Drop(k, 1), !.vars = SubSeq(@, 1, Top(k)[3]), !.dep = Top(k)[4]]
    [] N.k = "ret"  -> Todo(m, <<It1("E", N.a), It1("RET", n)>>)

\* Continues with stm if the value on top is true.
Branch(m, at, yes(_), no(_)) ==
  LET v == Top(m.st) m1 == PopV(m, 1) IN
  With(m1, Truth(v), at, LAMBDA c : IF c.i = 1 THEN yes(m1) ELSE no(m1))

Return(m, v) ==
  LET k == Unwind(m.k, {"R", "CR"}) t == Top(k) IN
  IF t[1] = "CR" THEN Finish([m EXCEPT !.k = k], v)
  ELSE [m EXCEPT !.k = Drop(k, 1), !.fb = t[2], !.vars = SubSeq(@, 1, t[3]), !.dep = t[4],
                 !.st = Append(SubSeq(@, 1, t[5]), v)]

Text2(v) == IF v.t = "s" /\ Len(v.s) > 200 THEN Out ELSE v
Work(p, m0) ==
  LET t == Top(m0.k)
      m == [m0 EXCEPT !.k = Drop(@, 1), !.n = @ + 1]
      op == t[1]
      n == t[2]
      at == IF n = 0 THEN "*" ELSE p.nodes[n].at
      N == p.nodes[n]
      v == Top(m.st)
      w == m.st[Len(m.st) - 1]
  IN
  CASE op = "E" -> Eval(p, m, n)
    [] op = "S" -> Exec(p, m, n)
    [] op = "LST" -> IF t[3] > Len(N.l) THEN m
                     ELSE Todo(m, <<It1("S", N.l[t[3]]), It("LST", n, t[3] + 1, 0, 0)>>)
    [] op = "SC" -> [Todo(m, <<It1("S", n), Scope(m)>>) EXCEPT !.dep = @ + 1]
    [] op = "PV" -> [m EXCEPT !.vars = SubSeq(@, 1, t[3]), !.dep = t[4]]
    [] op = "LOOP" -> [m EXCEPT !.vars = SubSeq(@, 1, t[3]), !.dep = t[4]]
    [] op = "POP" -> PopV(m, 1)
    [] op = "ONE" -> Push(m, I(1))
    [] op = "NIL" -> Push(m, ANil)
    [] op = "BIN" -> With(m, Text2(BinOp(N.s, w, v)), at, LAMBDA r : Push(PopV(m, 2), r))
    [] op = "UNINC" -> With(m, BinOp(IF N.s = "+" THEN "-" ELSE "+", w, v), at, LAMBDA r : Push(PopV(m, 2), r))
    [] op = "UN" -> With(m, UnOp(N.s, v), at, LAMBDA r : Push(PopV(m, 1), r))
    [] op = "STO" -> Store(m, N.s, v)
    [] op = "DCL" -> Declare(PopV(m, 1), N.s, v)
    [] op = "FGET" -> IF w.t # "o" THEN Fail(m, NoField, at)
                      ELSE IF ~KeyOK(v) THEN Outside(m) ELSE Push(PopV(m, 2), Field(m, w, v))
    [] op = "FPEEK" -> IF w.t # "o" THEN Fail(m, NoField, at)
                       ELSE IF ~KeyOK(v) THEN Outside(m) ELSE Push(PopV(m, 1), Field(m, w, v))
    [] op = "FSET" -> IF w.t # "o" THEN Fail(m, NoSet, at)
                      ELSE IF ~KeyOK(v) THEN Outside(m)
                      ELSE IF Full(p, m, w, v, m.st[Len(m.st) - 2]) THEN Fail(m, "Reached object field count limit.", at)
                      ELSE PopV(SetField(m, w, v, m.st[Len(m.st) - 2]), 2)
    [] op = "CALL" -> LET a == Len(N.l) IN Invoke(p, PopV(m, a + 1), m.st[Len(m.st) - a], TakeLast(m.st, a), at)
    [] op = "SELF" -> LET a == Len(N.l) IN
                      Invoke(p, PopV(m, a + 2), m.st[Len(m.st) - a], <<m.st[Len(m.st) - a - 1]>> \o TakeLast(m.st, a), at)
    [] op = "CO" -> LET a == Len(N.l) IN NewCoroutine(p, PopV(m, a + 1), m.st[Len(m.st) - a], TakeLast(m.st, a), at)
    [] op = "YLD" -> Yield(PopV(m, 1), v, at)
    [] op = "RSM" -> Resume(PopV(m, 2), w, v, at)
    [] op = "FIN" -> IF v.t # "o" THEN Fail(m, "*", at)
                     ELSE IF m.heap[v.i].co = 0 THEN Fail(m, "Tried to check for a finished coroutine with the wrong object type.", at)
                     ELSE Push(PopV(m, 1), B(m.co[m.heap[v.i].co].state = "done"))
    [] op = "LEN" -> IF v.t # "o" THEN Fail(m, "Non-object passed into len().", at)
                     ELSE Push(PopV(m, 1), I(NFields(m, v)))
    [] op = "IF" -> Branch(m, at, LAMBDA x : Todo(x, <<It1("SC", N.b)>>),
                           LAMBDA x : IF N.c = 0 THEN x ELSE Todo(x, <<It1("SC", N.c)>>))
    [] op = "WHL" -> Todo(m, <<It1("E", N.a), It1("WH2", n)>>)
    [] op = "WH2" -> Branch(m, at, LAMBDA x : Todo(x, <<It1("SC", N.b), It1("WHL", n)>>), LAMBDA x : x)
    [] op = "DOC" -> Todo(m, <<It1("E", N.b), It1("DO2", n)>>)
    [] op = "DO2" -> Branch(m, p.nodes[N.b].at, LAMBDA x : Todo(x, <<It1("SC", N.a), It1("DOC", n)>>), LAMBDA x : x)
    [] op = "FOR" -> Todo(m, <<It1("E", N.b), It1("FO2", n)>>)
    [] op = "FO2" -> Branch(m, at, LAMBDA x : Todo(x, <<It1("SC", N.d), It1("E", N.c), It1("POP", 0), It1("FOR", n)>>), LAMBDA x : x)
    [] op = "RET" -> Return(m, v)
    [] op = "R"  -> Return([m EXCEPT !.k = Append(@, t)], I(0))
    [] op = "CR" -> Finish(m, I(0))
    [] op = "LV" -> Event([m EXCEPT !.st = Append(SubSeq(@, 1, t[3]), v)], [ev |-> "leave", err |-> 0])
    [] op = "HR" -> Event(PopV(m, 1), [ev |-> "ret", err |-> 0, v |-> See(m, v)])

(***************************************************************************)
(* The host: runs compiled units, calls functions, uses globals.           *)
(***************************************************************************)
HostStep(p, m) ==
  IF m.hp > Len(p.host) THEN [m EXCEPT !.stat = "end"]
  ELSE
  LET h == p.host[m.hp] m1 == [m EXCEPT !.hp = @ + 1] IN
  CASE h.op = "run" -> [m1 EXCEPT !.k = <<It("LST", h.n, 1, 0, 0)>>]
    [] h.op = "call" -> Invoke(p, [m1 EXCEPT !.k = <<It1("HR", 0)>>], m.g[h.s], h.args, "*")
    [] h.op = "gset" -> [m1 EXCEPT !.g[h.s] = h.args[1]]
    [] h.op = "gget" -> Event(m1, [ev |-> "gget", ok |-> IF h.s \in DOMAIN m.g THEN 1 ELSE 0,
                                   v |-> IF h.s \in DOMAIN m.g THEN See(m, m.g[h.s]) ELSE MkV("none", 0, 0, "")])
    [] h.op = "gc" -> Collect(m1)
    [] h.op = "mark" -> Event(m1, [ev |-> "mark", m |-> h.s])

Step(p, m) ==
  IF m.stat # "run" THEN m
  ELSE IF m.n > MaxSteps THEN [m EXCEPT !.stat = "limit"]
  ELSE IF m.k = <<>> THEN HostStep(p, m)
  ELSE Work(p, m)
RECURSIVE Steps(_, _, _)
Steps(p, m, n) == IF n = 0 \/ m.stat # "run" THEN m ELSE Steps(p, Step(p, m), n - 1)

Globals0 == [x \in {NatNames[j] : j \in 1 .. Len(NatNames)} |-> NatFn(CHOOSE j \in 1 .. Len(NatNames) : NatNames[j] = x)]
RootCo == [k |-> <<>>, st |-> <<>>, vars |-> <<>>, fb |-> 0, dep |-> 0, par |-> 0, state |-> "run", ob |-> 0]
Machine0 == [k |-> <<>>, st |-> <<>>, vars |-> <<>>, fb |-> 0, dep |-> 0, cx |-> 1, co |-> <<RootCo>>,
             heap |-> <<>>, g |-> Globals0, out |-> <<>>, err |-> <<>>, stat |-> "run",
             cnt |-> 0, ntag |-> 1000, hp |-> 1, n |-> 0]

(***************************************************************************)
(* Laws of the machine, checked in every state.                            *)
(***************************************************************************)
\* Nothing is left over when the program has ended.
CleanEnd(m) == m.stat = "end" => m.k = <<>> /\ m.st = <<>> /\ m.vars = <<>> /\ m.cx = 1 /\ m.dep = 0
\* Whatever can be reached was never collected.
NoDangling(m) == \A i \in Reach(m) : ~m.heap[i].dead
\* Coroutines form a chain from the running one to the root.
RECURSIVE ChainLen(_, _, _)
ChainLen(m, c, n) == IF n > Len(m.co) THEN -1 ELSE IF c = 1 THEN n ELSE IF c = 0 THEN -1 ELSE ChainLen(m, m.co[c].par, n + 1)
Chained(m) == m.stat = "run" => ChainLen(m, m.cx, 0) >= 0
Framed(m) == m.fb <= Len(m.vars) /\ m.dep >= 0
OneEnd(m) == (m.stat = "err") = (Len(m.err) = 1)
=============================================================================
