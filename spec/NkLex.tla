-------------------------------- MODULE NkLex --------------------------------
(***************************************************************************)
(* From text to tokens. A text is a sequence of characters, each a string; *)
(* "HI" stands for a byte above 127 and "CTL" for a control character.     *)
(* Text(s) says whether s is a program. The state machine writes every     *)
(* text over Chars up to Most characters, or random ones from Pieces, and  *)
(* puts them between the parts of Frames.                                  *)
(***************************************************************************)
EXTENDS NkGrammar, TLC, Json
CONSTANTS Chars, Most, Frames, Pieces, Seeds

White == {" ", "\n", "\t", "\r"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v",
            "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R",
            "S", "T", "U", "V", "W", "X", "Y", "Z", "_", "HI"}
Two == {"++", "--", "->", "==", ">=", "<=", "!=", "&&", "||"}
One == {"(", ")", "[", "]", "{", "}", "+", "-", "*", "%", ".", "/", ";", "=", ",", ">", "<", "!"}

\* The first position from i on that is not in set, or not before the end.
RECURSIVE Past(_, _, _)
Past(s, i, set) == IF i <= Len(s) /\ s[i] \in set THEN Past(s, i + 1, set) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i <= Len(s) /\ s[i] # "\n" THEN LineEnd(s, i + 1) ELSE i
Join(s, i, j) == FoldLeft(LAMBDA a, b : a \o b, "", SubSeq(s, i, j - 1))
\* Where the string that begins before i ends: its last quote, 0 if there is a
\* new line before that. With open, the end of the text ends it too.
RECURSIVE Quote(_, _, _)
Quote(s, i, esc) ==
  IF i > Len(s) THEN i
  ELSE IF s[i] = "\n" THEN 0
  ELSE IF s[i] = "\\" THEN Quote(s, i + 1, ~esc)
  ELSE IF s[i] = "\"" /\ ~esc THEN i
  ELSE Quote(s, i + 1, FALSE)

\* The words of a directive, without the # and the end of the line.
RECURSIVE Parts(_, _)
Parts(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE CASE s[i] \in White -> Parts(s, i + 1)
         [] s[i] \in Letters -> LET e == Past(s, i, Letters \cup Digits) IN <<Join(s, i, e)>> \o Parts(s, e)
         [] s[i] \in Digits -> LET e == Past(s, i, Digits) IN <<Join(s, i, e)>> \o Parts(s, e)
         [] s[i] = "\"" -> LET e == Quote(s, i + 1, FALSE) IN
                           IF e = 0 \/ e > Len(s) THEN <<"#bad">> ELSE <<Join(s, i + 1, e)>> \o Parts(s, e + 1)
         [] s[i] = "/" /\ i < Len(s) /\ s[i + 1] = "/" -> <<>>
         [] OTHER -> <<"#bad">>
DirectiveOk(s) ==
  LET p == Parts(s, 1) IN
  /\ \A i \in 1 .. Len(p) : p[i] # "#bad"
  /\ p # <<>> => \/ p[1] = "line" /\ Len(p) \in {2, 3}
                 \/ p[1] = "file" /\ Len(p) = 2

RECURSIVE Lex(_, _)
Lex(s, i) ==
  IF i > Len(s) THEN <<>> ELSE
  LET ch == s[i]
      two == IF i < Len(s) THEN ch \o s[i + 1] ELSE ch
      three == IF i + 1 < Len(s) THEN two \o s[i + 2] ELSE two IN
  CASE ch \in White -> Lex(s, i + 1)
    [] ch = "#" -> LET e == LineEnd(s, i) IN IF DirectiveOk(SubSeq(s, i + 1, e - 1)) THEN Lex(s, e + 1) ELSE <<"#bad">>
    [] two = "//" -> Lex(s, LineEnd(s, i))
    [] ch = "\"" -> LET e == Quote(s, i + 1, FALSE) IN IF e = 0 THEN <<"#bad">> ELSE <<"#str">> \o Lex(s, e + 1)
    [] ch \in Digits -> LET e == Past(s, i, Digits \cup {"."}) IN
         <<IF \E j \in i .. e - 1 : s[j] = "." THEN "#flt" ELSE "#int">> \o Lex(s, e)
    [] ch \in Letters -> LET e == Past(s, i, Letters \cup Digits) IN <<Join(s, i, e)>> \o Lex(s, e)
    [] three = "===" -> <<"===">> \o Lex(s, i + 3)
    [] two \in Two -> <<two>> \o Lex(s, i + 2)
    [] ch \in One -> <<ch>> \o Lex(s, i + 1)
    [] OTHER -> <<"#bad">>
Text(s) == Program(Lex(s, 1))

VARIABLES s, rnd
Rnd0(x) == <<1 + ((x * 7 + 11) % 30268), 1 + ((x * 131 + 5) % 30306), 1 + ((x * 1009 + 7) % 30322)>>
RndN(r) == <<(r[1] * 171) % 30269, (r[2] * 172) % 30307, (r[3] * 170) % 30323>>
Num(r, n) == (r[1] + r[2] * 3 + r[3] * 11) % n
Init == s = <<>> /\ rnd = <<0, 0, 0>>
NextAll == Len(s) < Most /\ (\E ch \in Chars : s' = Append(s, ch)) /\ UNCHANGED rnd
InitRnd == s = <<>> /\ \E x \in Seeds : rnd = RndN(RndN(Rnd0(x)))
NextRnd == Len(s) < Most /\ s' = s \o Pieces[1 + Num(rnd, Len(Pieces))] /\ rnd' = RndN(rnd)
Verdicts == [i \in 1 .. Len(Frames) |-> Text(Frames[i][1] \o s \o Frames[i][2])]
Say == PrintT(ToJson([s |-> s, ok |-> Verdicts]))
SayLong == (Len(s) >= Most) => Say
\* White space and comments between tokens change nothing; nor does a text after a complete one.
Laws == LET t == Text(s) IN
  /\ Text(<<"\n", "\t">> \o s \o <<"\r">>) = t \/ (\E i \in 1 .. Len(s) : s[i] \in {"\"", "#", "/"})
  /\ t => Text(<<"1", ";">> \o s)
  /\ t /\ ~(\E i \in 1 .. Len(s) : s[i] \in {"\"", "#", "/"}) => Text(s \o <<"/", "/", "(">>)
==============================================================================
