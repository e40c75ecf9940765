------------------------------- MODULE NkOps -------------------------------
(* The complete table of every operator on every pair of operands from a   *)
(* set of values that covers all types and their boundaries (plus values   *)
(* chosen by the driver, in NkOpsData).  TLC checks the algebraic laws     *)
(* below on the specification and prints the table for the implementation. *)
EXTENDS NkValue, NkOpsData, Json
BinOps == {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "===", "&&", "||"}
UnOps == {"-", "!"}
Ints == {0, 1, -1, 2, -3, 7, -7, 255, 256, 32767, -32768, 65535, 65536, -65536, 46341, 16777216, 1000000007, IntMax, IntMin, IntMin + 1}
Floats == {F(0, 0), FZero(TRUE), F(1, 0), F(-1, 0), F(1, 1), F(5, 1), F(-5, 1), F(15, 2), F(100, 0), F(1, 6), F(-3, 4),
           F(255, 0), F(256, 0), F(512, 0), F(16777216, 0), FInf(FALSE), FInf(TRUE), FNaN}
Strings == {"", "0", "1", "12", "-3", "a", "ab", "b", "B", "2.5", " 7", "7x", "1.000000", "-0.5", "256", "x y", "<nil:0>"}
Vals == {I(x) : x \in Ints} \cup Floats \cup {S(x) : x \in Strings} \cup {Fn(1), Fn(2), Ob(1), Ob(2), Nil} \cup ExtraVals

VARIABLES a, b, op
vars == <<a, b, op>>
Init == a \in Vals /\ b = Nil /\ op = "init"
Next == /\ op = "init"
        /\ a' = a
        /\ \/ b' \in Vals /\ op' \in BinOps
           \/ b' = Nil /\ op' \in {"u" \o o : o \in UnOps}
Result == IF op \in BinOps THEN BinOp(op, a, b) ELSE UnOp(Ch(op, 2), a)
Emit == op = "init" \/ PrintT(ToJson(<<op, a, b, Result>>))

(***************************************************************************)
(* Laws of the specification itself.                                       *)
(***************************************************************************)
Good(v) == ~IsBad(v)
IsInt(v) == v.t = "i"
TypeOK == op = "init" \/ (LET r == Result IN
   /\ r.t \in {"i", "f", "s", "err", "out"}
   /\ (r.t = "i" => r.i >= IntMin /\ r.i <= IntMax)
   /\ (op \in {"==", "!=", "<", ">", "<=", ">=", "===", "&&", "||", "u!"} /\ Good(r) => r \in {I(0), I(1)})
   /\ (op \in {"+", "-", "*", "/", "%"} /\ Good(r) => r.t = a.t))
IntLaws == (op \in BinOps /\ IsInt(a) /\ IsInt(b)) =>
   /\ Add(a, b) = Add(b, a)
   /\ Mul(a, b) = Mul(b, a)
   /\ Sub(Add(a, b), b) = a
   /\ Sub(a, b) = Add(a, Negate(b))
   /\ Negate(Negate(a)) = a
   /\ Mul(a, I(3)) = Add(a, Add(a, a))
   /\ Mul(a, I(-1)) = Negate(a)
   /\ (Good(Div(a, b)) => Add(Mul(Div(a, b), b), Mod(a, b)) = a)
   /\ (Good(Mod(a, b)) => (Mod(a, b).i = 0 \/ (Mod(a, b).i < 0) = (a.i < 0)))
   /\ Lt(a, b).i + Gt(a, b).i + Eq(a, b).i = 1
   /\ Lt(a, b) = Gt(b, a)
StringLaws == (op \in BinOps /\ a.t = "s" /\ b.t = "s") =>
   /\ Lt(a, b).i + Gt(a, b).i + Eq(a, b).i = 1
   /\ Lt(a, b) = Gt(b, a)
   /\ (Eq(a, b).i = 1) = (a.s = b.s)
   /\ Len(Add(a, b).s) = Len(a.s) + Len(b.s)
EqLaws == op \in BinOps =>
   /\ Same(a, b) = Same(b, a)
   /\ (a # FNaN => Same(a, a) \in {I(1), Out})
   /\ (Good(Eq(a, b)) /\ Good(Ne(a, b)) => Eq(a, b).i + Ne(a, b).i = 1)
FloatLaws == (op \in BinOps /\ a.t = "f" /\ b.t = "f") =>
   /\ FAdd(a, b) = FAdd(b, a)
   /\ FMul(a, b) = FMul(b, a)
   /\ (a.s = "" /\ b.s = "" /\ Good(FAdd(a, b)) /\ Good(FSub(FAdd(a, b), b)) => Eq(FSub(FAdd(a, b), b), a) = I(1))
   /\ (a.s = "" /\ b.s = "" /\ b.i # 0 /\ Good(FDiv(a, b)) /\ Good(FMul(FDiv(a, b), b)) => Eq(FMul(FDiv(a, b), b), a) = I(1))
=============================================================================
