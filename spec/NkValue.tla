------------------------------ MODULE NkValue ------------------------------
(***************************************************************************)
(* Values of the Ninkasi language and what every operator does to them.    *)
(*                                                                         *)
(* A value is a record [t, i, e, s]:                                       *)
(*   t = "i"   32-bit integer i                                            *)
(*   t = "f"   float i / 2^e (i odd or e = 0), or s = "inf" / "nan" with   *)
(*             the sign in i, or s = "-0"                                  *)
(*   t = "s"   the string s                                                *)
(*   t = "fn"  function number i                                           *)
(*   t = "o"   object number i                                             *)
(*   t = "n"   nil                                                         *)
(* An operator gives a value, or [t |-> "err"] with the message in s, or   *)
(* [t |-> "out"]: the result depends on float rounding, an address or an   *)
(* undefined conversion, which this specification says nothing about.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MkV(t, i, e, s) == [t |-> t, i |-> i, e |-> e, s |-> s]
IntMin == -2147483647 - 1
IntMax == 2147483647
Nil    == MkV("n", 0, 0, "")
I(x)   == MkV("i", x, 0, "")
S(x)   == MkV("s", 0, 0, x)
Fn(x)  == MkV("fn", x, 0, "")
Ob(x)  == MkV("o", x, 0, "")
Err(m) == MkV("err", 0, 0, m)
Out    == MkV("out", 0, 0, "")
B(b)   == IF b THEN I(1) ELSE I(0)
IsBad(v) == v.t \in {"err", "out"}

TypeName(v) ==
  CASE v.t = "i" -> "integer" [] v.t = "f" -> "float" [] v.t = "s" -> "string"
    [] v.t = "fn" -> "function" [] v.t = "o" -> "object" [] OTHER -> "nil"

(***************************************************************************)
(* 32-bit two's complement arithmetic, in halves that TLC can hold.        *)
(***************************************************************************)
H(x) == x \div 65536          \* floors: -32768 .. 32767
L(x) == x % 65536             \* 0 .. 65535
SH(h) == LET m == h % 65536 IN IF m >= 32768 THEN m - 65536 ELSE m
Join(h, l) == SH(h + (l \div 65536)) * 65536 + (l % 65536)
Add32(a, b) == Join(H(a) + H(b), L(a) + L(b))
Neg32(a) == Join(-H(a), -L(a))
Sub32(a, b) == Join(H(a) - H(b), L(a) - L(b))
Mul32(a, b) ==
  LET al == L(a) bl == L(b)
      p0 == al * (bl % 256)
      p1 == al * (bl \div 256)
      lo == (p0 % 65536) + (p1 % 256) * 256
      hi == (p0 \div 65536) + (p1 \div 256)
      c1 == (((H(a) % 65536) * (bl % 256)) % 65536) + ((((H(a) % 65536) * (bl \div 256)) % 256) * 256)
      c2 == (((H(b) % 65536) * (al % 256)) % 65536) + ((((H(b) % 65536) * (al \div 256)) % 256) * 256)
  IN Join(hi + c1 + c2, lo)
\* Quotient rounded toward zero.
Quot(a, b) ==
  IF b = IntMin THEN (IF a = IntMin THEN 1 ELSE 0)
  ELSE LET d == IF b < 0 THEN -b ELSE b
           f == a \div d
           q == IF a < 0 /\ a % d # 0 THEN f + 1 ELSE f
       IN IF b < 0 THEN -q ELSE q
Rem(a, b) == Sub32(a, Mul32(Quot(a, b), b))

(***************************************************************************)
(* Floats: dyadic rationals that single precision holds exactly.           *)
(***************************************************************************)
Pow2(n) == 2 ^ n
Abs(x) == IF x = IntMin THEN IntMax ELSE IF x < 0 THEN -x ELSE x
FInf(neg) == MkV("f", IF neg THEN -1 ELSE 1, 0, "inf")
FNaN == MkV("f", 1, 0, "nan")
FZero(neg) == IF neg THEN MkV("f", 0, 0, "-0") ELSE MkV("f", 0, 0, "")
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN FZero(FALSE)
              ELSE IF e > 0 /\ m % 2 = 0 THEN Norm(m \div 2, e - 1)
              ELSE MkV("f", m, e, "")
\* The float m / 2^e, if 24 bits of mantissa are enough for it.
RECURSIVE OddPart(_)
OddPart(m) == IF m % 2 = 0 THEN OddPart(m \div 2) ELSE m
F(m, e) == IF m = 0 THEN FZero(FALSE)
           ELSE IF m = IntMin THEN (IF e = 0 THEN MkV("f", m, 0, "") ELSE Out)
           ELSE IF OddPart(Abs(m)) >= 16777216 \/ e > 20 THEN Out ELSE Norm(m, e)
FIsZero(f) == f.i = 0
FNeg(f) == IF f.s = "nan" THEN FNaN
           ELSE IF f.s = "inf" THEN FInf(f.i > 0)
           ELSE IF f.i = 0 THEN FZero(f.s = "")
           ELSE IF f.i = IntMin THEN Out ELSE MkV("f", -f.i, f.e, "")
FSign(f) == f.i < 0 \/ f.s = "-0"
Max2(a, b) == IF a > b THEN a ELSE b
Fits(x, sh) == sh <= 12 /\ Abs(x) <= 262143    \* x * 2^sh stays below 2^30
FAdd(x, y) ==
  IF x.s = "nan" \/ y.s = "nan" THEN FNaN
  ELSE IF x.s = "inf" THEN (IF y.s = "inf" /\ y.i # x.i THEN FNaN ELSE x)
  ELSE IF y.s = "inf" THEN y
  ELSE IF FIsZero(x) /\ FIsZero(y) THEN FZero(FSign(x) /\ FSign(y))
  ELSE LET e == Max2(x.e, y.e) IN
       IF ~Fits(x.i, e - x.e) \/ ~Fits(y.i, e - y.e) THEN
         (IF FIsZero(x) THEN y ELSE IF FIsZero(y) THEN x ELSE Out)
       ELSE F(x.i * Pow2(e - x.e) + y.i * Pow2(e - y.e), e)
FSub(x, y) == IF y.s = "nan" THEN FNaN ELSE LET n == FNeg(y) IN IF IsBad(n) THEN n ELSE FAdd(x, n)
FMul(x, y) ==
  IF x.s = "nan" \/ y.s = "nan" THEN FNaN
  ELSE IF x.s = "inf" \/ y.s = "inf" THEN
    (IF FIsZero(x) \/ FIsZero(y) THEN FNaN ELSE FInf(FSign(x) # FSign(y)))
  ELSE IF FIsZero(x) \/ FIsZero(y) THEN FZero(FSign(x) # FSign(y))
  ELSE IF Abs(x.i) > 32767 \/ Abs(y.i) > 32767 THEN Out
  ELSE F(x.i * y.i, x.e + y.e)
\* Division: exact only if the divisor's mantissa divides the dividend's.
FDiv(x, y) ==
  IF x.s = "nan" \/ y.s = "nan" THEN FNaN
  ELSE IF x.s = "inf" THEN (IF y.s = "inf" THEN FNaN ELSE FInf(FSign(x) # FSign(y)))
  ELSE IF y.s = "inf" THEN FZero(FSign(x) # FSign(y))
  ELSE IF FIsZero(y) THEN (IF FIsZero(x) THEN FNaN ELSE FInf(FSign(x) # FSign(y)))
  ELSE IF FIsZero(x) THEN FZero(FSign(x) # FSign(y))
  ELSE IF x.i = IntMin \/ y.i = IntMin THEN Out
  ELSE LET od == OddPart(Abs(y.i))              \* y = +-od * 2^k / 2^y.e
           k  == Abs(y.i) \div od               \* a power of two
           q  == Abs(x.i) \div od
           m  == IF FSign(x) # FSign(y) THEN -q ELSE q
       IN IF Abs(x.i) % od # 0 \/ k > 4096 \/ y.e > 12 \/ ~Fits(m, y.e) THEN Out
          ELSE LET kk == CHOOSE j \in 0 .. 12 : Pow2(j) = k
                   r  == F(m * Pow2(y.e), 0)
               IN IF IsBad(r) THEN Out ELSE F(m * Pow2(y.e), x.e + kk)
FCmp(x, y) ==   \* 1, 0, -1; anything involving nan is "less"
  IF x.s = "nan" \/ y.s = "nan" THEN -1
  ELSE IF x.s = "inf" \/ y.s = "inf" THEN
    LET r(f) == IF f.s = "inf" THEN f.i ELSE 0 IN
    IF r(x) > r(y) THEN 1 ELSE IF r(x) = r(y) THEN 0 ELSE -1
  ELSE LET d(f, e) == f.i * Pow2(e - f.e)
           e == Max2(x.e, y.e)
       IN IF ~Fits(x.i, e - x.e) \/ ~Fits(y.i, e - y.e)
          THEN \* compare integer parts first
            LET ix == x.i \div Pow2(x.e) iy == y.i \div Pow2(y.e) IN
            IF ix > iy THEN 1 ELSE IF ix < iy THEN -1
            ELSE LET fx == x.i % Pow2(x.e) fy == y.i % Pow2(y.e) IN
                 IF fx * Pow2(e - x.e) > fy * Pow2(e - y.e) THEN 1
                 ELSE IF fx * Pow2(e - x.e) = fy * Pow2(e - y.e) THEN 0 ELSE -1
          ELSE IF d(x, e) > d(y, e) THEN 1 ELSE IF d(x, e) = d(y, e) THEN 0 ELSE -1

(***************************************************************************)
(* Characters and text.                                                    *)
(***************************************************************************)
Ascii == "\t\n\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(s, k) == SubSeq(s, k, k)
Rank == [c \in {Ch(Ascii, k) : k \in 1 .. Len(Ascii)} |-> CHOOSE k \in 1 .. Len(Ascii) : Ch(Ascii, k) = c]
Known(s) == \A k \in 1 .. Len(s) : Ch(s, k) \in DOMAIN Rank
RECURSIVE SCmp(_, _, _)
SCmp(a, b, k) ==
  IF k > Len(a) /\ k > Len(b) THEN 0
  ELSE IF k > Len(a) THEN -1
  ELSE IF k > Len(b) THEN 1
  ELSE IF Ch(a, k) = Ch(b, k) THEN SCmp(a, b, k + 1)
  ELSE IF Rank[Ch(a, k)] > Rank[Ch(b, k)] THEN 1 ELSE -1
Digits == "0123456789"
IsDigit(c) == c \in {Ch(Digits, k) : k \in 1 .. 10}
DigitVal == [c \in {Ch(Digits, k) : k \in 1 .. 10} |-> (CHOOSE k \in 1 .. 10 : Ch(Digits, k) = c) - 1]
Blank == {" ", "\t", "\n", "\r"}
NatText(n) == ToString(n)
IntText(n) == IF n = IntMin THEN "-2147483648" ELSE ToString(n)
RECURSIVE Pad6(_)
Pad6(s) == IF Len(s) >= 6 THEN s ELSE Pad6("0" \o s)
Pow5(n) == 5 ^ n
\* What "%f" prints; exact when there are at most six fractional bits.
FloatText(f) ==
  IF f.s = "inf" THEN S(IF f.i < 0 THEN "-inf" ELSE "inf")
  ELSE IF f.s = "nan" THEN Out
  ELSE IF f.s = "-0" THEN S("-0.000000")
  ELSE IF f.e > 6 THEN Out
  ELSE IF f.i = IntMin THEN S("-2147483648.000000")
  ELSE LET a == Abs(f.i)
           w == a \div Pow2(f.e)
           r == a % Pow2(f.e)
           micro == r * (1000000 \div Pow2(f.e))
       IN S((IF f.i < 0 THEN "-" ELSE "") \o ToString(w) \o "." \o Pad6(ToString(micro)))
RECURSIVE SkipBlank(_, _)
SkipBlank(s, k) == IF k <= Len(s) /\ Ch(s, k) \in Blank THEN SkipBlank(s, k + 1) ELSE k
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, k) == IF k <= Len(s) /\ IsDigit(Ch(s, k)) THEN DigitsEnd(s, k + 1) ELSE k
RECURSIVE NumOf(_, _, _, _)
NumOf(s, k, e, acc) == IF k >= e THEN acc ELSE NumOf(s, k + 1, e, acc * 10 + DigitVal[Ch(s, k)])
RECURSIVE StripZero(_, _, _)
StripZero(s, k, e) == IF k < e - 1 /\ Ch(s, k) = "0" THEN StripZero(s, k + 1, e) ELSE k
\* The integer a string starts with (0 if none); Out if it has too many digits.
TextInt(s) ==
  IF ~Known(s) THEN Out ELSE
  LET a == SkipBlank(s, 1)
      sg == a <= Len(s) /\ Ch(s, a) \in {"+", "-"}
      b == IF sg THEN a + 1 ELSE a
      e == DigitsEnd(s, b)
      z == StripZero(s, b, e)
  IN IF e = b THEN I(0)
     ELSE IF e - z > 9 THEN
       (IF SubSeq(s, z, e - 1) = "2147483648" /\ sg /\ Ch(s, a) = "-" THEN I(IntMin)
        ELSE IF SubSeq(s, z, e - 1) = "2147483647" THEN I(IF sg /\ Ch(s, a) = "-" THEN -IntMax ELSE IntMax)
        ELSE Out)
     ELSE LET v == NumOf(s, z, e, 0) IN I(IF sg /\ Ch(s, a) = "-" THEN -v ELSE v)
Odd5(n, k) == n % Pow5(k) = 0
\* The decimal float a string starts with. Exponents, hex and words: Out.
TextFloat(s) ==
  IF ~Known(s) THEN Out ELSE
  LET a == SkipBlank(s, 1)
      sg == a <= Len(s) /\ Ch(s, a) \in {"+", "-"}
      neg == sg /\ Ch(s, a) = "-"
      b == IF sg THEN a + 1 ELSE a
      e == DigitsEnd(s, b)
      dot == e <= Len(s) /\ Ch(s, e) = "."
      fe == IF dot THEN DigitsEnd(s, e + 1) ELSE e
      nd == (e - b) + (IF dot THEN fe - e - 1 ELSE 0)
      nxt == IF fe <= Len(s) THEN Ch(s, fe) ELSE ""
      z == StripZero(s, b, e)
  IN IF nxt \in {"e", "E", "x", "X", "i", "I", "n", "N"} THEN Out
     ELSE IF nd = 0 THEN FZero(FALSE)
     ELSE LET k == IF dot THEN fe - e - 1 ELSE 0
              ip == IF e = b THEN 0 ELSE IF e - z > 9 THEN -1 ELSE NumOf(s, z, e, 0)
          IN IF ip < 0 \/ k > 6 THEN Out
             ELSE LET fr == IF k = 0 THEN 0 ELSE NumOf(s, e + 1, fe, 0) IN
               \* value = ip + fr / 10^k = ip + (fr / 5^k) / 2^k
               IF ~Odd5(fr, k) THEN Out
               ELSE IF k > 0 /\ ip > 1000000 THEN (IF fr = 0 THEN F(IF neg THEN -ip ELSE ip, 0) ELSE Out)
               ELSE LET m == ip * Pow2(k) + fr \div Pow5(k)
                    IN IF m = 0 THEN FZero(neg) ELSE F(IF neg THEN -m ELSE m, k)

(***************************************************************************)
(* Conversions.                                                            *)
(***************************************************************************)
CannotConvert(v) == Err("Cannot convert type " \o TypeName(v) \o " to an integer.")
ToInt(v) ==
  CASE v.t = "i" -> v
    [] v.t = "f" -> IF v.s \in {"inf", "nan"} THEN Out
                    ELSE IF v.e = 0 THEN I(v.i)
                    ELSE I(IF v.i < 0 THEN -((-v.i) \div Pow2(v.e)) ELSE v.i \div Pow2(v.e))
    [] v.t = "s" -> TextInt(v.s)
    [] v.t = "o" -> I(1)
    [] v.t = "n" -> I(0)
    [] OTHER -> CannotConvert(v)
ToFloat(v) ==
  CASE v.t = "f" -> v
    [] v.t = "i" -> F(v.i, 0)
    [] v.t = "s" -> TextFloat(v.s)
    [] v.t = "n" -> FZero(FALSE)
    [] OTHER -> CannotConvert(v)
ToText(v) ==
  CASE v.t = "s" -> v
    [] v.t = "i" -> S(IntText(v.i))
    [] v.t = "f" -> FloatText(v)
    [] v.t = "n" -> S("<nil:0>")
    [] OTHER -> Out

(***************************************************************************)
(* Operators. The left operand decides the type of the operation.          *)
(***************************************************************************)
WithInt(v, op(_))   == LET c == ToInt(v) IN IF IsBad(c) THEN c ELSE op(c.i)
WithFloat(v, op(_)) == LET c == ToFloat(v) IN IF IsBad(c) THEN c ELSE op(c)
Unimpl(what, v) == Err(what \o " unimplemented for type " \o TypeName(v) \o ".")

Add(a, b) ==
  CASE a.t = "i" -> WithInt(b, LAMBDA y : I(Add32(a.i, y)))
    [] a.t = "f" -> WithFloat(b, LAMBDA y : FAdd(a, y))
    [] a.t = "s" -> LET c == ToText(b) IN IF IsBad(c) THEN c ELSE S(a.s \o c.s)
    [] OTHER -> Unimpl("Addition", a)
Sub(a, b) ==
  CASE a.t = "i" -> WithInt(b, LAMBDA y : I(Sub32(a.i, y)))
    [] a.t = "f" -> WithFloat(b, LAMBDA y : FSub(a, y))
    [] OTHER -> Unimpl("Subtraction", a)
Mul(a, b) ==
  CASE a.t = "i" -> WithInt(b, LAMBDA y : I(Mul32(a.i, y)))
    [] a.t = "f" -> WithFloat(b, LAMBDA y : FMul(a, y))
    [] OTHER -> Unimpl("Multiplication", a)
Div(a, b) ==
  CASE a.t = "i" -> WithInt(b, LAMBDA y :
            IF y = 0 \/ (y = -1 /\ a.i = IntMin)
            THEN Err("Integer divide-by-zero or division overflow.") ELSE I(Quot(a.i, y)))
    [] a.t = "f" -> WithFloat(b, LAMBDA y : FDiv(a, y))
    [] OTHER -> Unimpl("Division", a)
Mod(a, b) ==
  CASE a.t = "i" -> WithInt(b, LAMBDA y :
            IF y = 0 \/ (y = -1 /\ a.i = IntMin)
            THEN Err("Integer divide-by-zero.") ELSE I(Rem(a.i, y)))
    [] OTHER -> Unimpl("Modulo", a)
Negate(a) ==
  CASE a.t = "i" -> I(Neg32(a.i))
    [] a.t = "f" -> FNeg(a)
    [] OTHER -> Unimpl("Negation", a)
Not(a) == WithInt(a, LAMBDA x : B(x = 0))

\* Loose comparison: [t |-> "i"] with i in -1 .. 1, an error, or out.
Cmp(a, b) ==
  IF a.t = "n" THEN I(IF b.t = "n" THEN 0 ELSE 1)
  ELSE IF b.t = "n" THEN I(-1)
  ELSE CASE a.t = "i" -> WithInt(b, LAMBDA y : I(IF a.i > y THEN 1 ELSE IF a.i = y THEN 0 ELSE -1))
         [] a.t = "f" -> WithFloat(b, LAMBDA y : I(FCmp(a, y)))
         [] a.t = "s" -> LET c == ToText(b) IN IF IsBad(c) THEN Out
                         ELSE IF ~Known(a.s) \/ ~Known(c.s) THEN Out ELSE I(SCmp(a.s, c.s, 1))
         [] OTHER -> IF a.t = b.t /\ a.i = b.i THEN I(0) ELSE MkV("ne", 0, 0, "")
\* "ne": different, but in no particular order.
Cond(a, b, P(_), ne) == LET c == Cmp(a, b) IN
  IF IsBad(c) THEN c ELSE IF c.t = "ne" THEN ne ELSE B(P(c.i))
Gt(a, b) == Cond(a, b, LAMBDA c : c = 1, Out)
Lt(a, b) == Cond(a, b, LAMBDA c : c = -1, Out)
Ge(a, b) == Cond(a, b, LAMBDA c : c >= 0, Out)
Le(a, b) == Cond(a, b, LAMBDA c : c <= 0, Out)
Eq(a, b) == IF a.t = "s" /\ b.t \in {"o", "fn"} THEN (IF Len(a.s) > 3 THEN Out ELSE I(0))
            ELSE Cond(a, b, LAMBDA c : c = 0, I(0))
Ne(a, b) == IF a.t = "s" /\ b.t \in {"o", "fn"} THEN (IF Len(a.s) > 3 THEN Out ELSE I(1))
            ELSE Cond(a, b, LAMBDA c : c # 0, I(1))
Same(a, b) == IF a.t # b.t THEN I(0) ELSE Eq(a, b)
\* Both operands of a logical operator are always converted, right one first.
Logic(a, b, P(_, _)) ==
  LET y == ToInt(b) x == ToInt(a) IN
  IF IsBad(y) THEN y ELSE IF IsBad(x) THEN x ELSE B(P(x.i # 0, y.i # 0))
And(a, b) == Logic(a, b, LAMBDA x, y : x /\ y)
Or(a, b)  == Logic(a, b, LAMBDA x, y : x \/ y)

BinOp(op, a, b) ==
  CASE op = "+" -> Add(a, b) [] op = "-" -> Sub(a, b) [] op = "*" -> Mul(a, b)
    [] op = "/" -> Div(a, b) [] op = "%" -> Mod(a, b)
    [] op = "==" -> Eq(a, b) [] op = "!=" -> Ne(a, b)
    [] op = ">" -> Gt(a, b) [] op = "<" -> Lt(a, b) [] op = ">=" -> Ge(a, b) [] op = "<=" -> Le(a, b)
    [] op = "===" -> Same(a, b)
    [] op = "&&" -> And(a, b) [] op = "||" -> Or(a, b)
UnOp(op, a) == CASE op = "-" -> Negate(a) [] op = "!" -> Not(a)

\* Truth of a condition: a Boolean value, an error or out.
Truth(v) == LET c == ToInt(v) IN IF IsBad(c) THEN c ELSE B(c.i # 0)

\* What a value looks like from outside. ext(o) is the tag of native object o.
KeyEq(a, b) == a = b
=============================================================================
