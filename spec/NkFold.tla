------------------------------ MODULE NkFold ------------------------------
(* The value of an expression tree over literals.  Literals, variables and *)
(* any mixture of the two denote the same values, so every way of writing  *)
(* the tree must give this result.                                         *)
(* The law Folds says that replacing any subtree by its value changes      *)
(* nothing, which is what makes folding permissible at all.                *)
EXTENDS NkValue, Json, Sequences
VARIABLES t, done
Trees == JsonDeserialize("trees.json")

\* nd: [k, a, b, s, v]; k = "lit", "un" or "bin".  The left operand is evaluated first.
RECURSIVE Value(_, _)
Value(T, n) ==
  LET nd == T[n] IN
  CASE nd.k = "lit" -> nd.v
    [] nd.k = "un"  -> LET x == Value(T, nd.a) IN IF IsBad(x) THEN x ELSE UnOp(nd.s, x)
    [] nd.k = "bin" -> LET x == Value(T, nd.a) IN
                       IF IsBad(x) THEN x
                       ELSE LET y == Value(T, nd.b) IN IF IsBad(y) THEN y ELSE BinOp(nd.s, x, y)
Fold(T, n) == LET x == Value(T, n) IN
              IF IsBad(x) THEN T ELSE [T EXCEPT ![n] = [k |-> "lit", a |-> 0, b |-> 0, s |-> "", v |-> x]]

Init == t \in 1 .. Len(Trees) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ t' = t
Result == LET T == Trees[t] IN Value(T, Len(T))
Truthy == IF IsBad(Result) THEN Result ELSE Truth(Result)
Report == done => PrintT(ToJson([t |-> t, r |-> Result, c |-> Truthy]))
Folds == done => LET T == Trees[t] IN \A n \in 1 .. Len(T) : Value(Fold(T, n), Len(T)) = Value(T, Len(T))
=============================================================================
