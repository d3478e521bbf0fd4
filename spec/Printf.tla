------------------------------- MODULE Printf -------------------------------
(* C26: splitting a format string at its printf specifiers.                 *)
(*   %[n$|(name)][flag][width.precision]([tT]letters | [length]type)        *)
EXTENDS Text
Pct == 37
\* letters, digits and underscore (the non-ASCII letters are those the drivers use)
Word == Alpha \cup Digit \cup {95, 233, 1578, 12354}
Flags == {45, 35, 43, 32, 48, 44}
TypeChars == Alpha \cup {Pct, 64}
NoMatch == [end |-> 0, pos |-> <<>>, name |-> <<>>, type |-> 0]
\* length of the run of characters from C at position j
RunEnd(s, j, C) == LET k == SelectInSeq(SubSeq(s, j, Len(s)), LAMBDA c : c \notin C) IN IF k = 0 THEN Len(s) + 1 ELSE j + k - 1
\* lengths of the length modifiers to try at j, in order
Mods(s, j) ==
  LET c == At(s, j) IN
  CASE c \in {104, 108} -> IF At(s, j + 1) = c THEN <<2, 1, 0>> ELSE <<1, 0>>
    [] c \in {76, 122, 106, 113} -> <<1, 0>>
    [] OTHER -> <<0>>
Datetime == 1000
\* the part after the argument: <<end, type>>, <<0, 0>> if there is none
Body(s, i) ==
  LET j1 == IF At(s, i) \in Flags THEN i + 1 ELSE i
      j  == RunEnd(s, j1, Digit \cup {46})
  IN IF At(s, j) \in {84, 116} /\ At(s, j + 1) \in Alpha THEN <<RunEnd(s, j + 1, Alpha) - 1, Datetime>>
     ELSE LET ms == Mods(s, j)
              k  == SelectInSeq(ms, LAMBDA m : At(s, j + m) \in TypeChars)
          IN IF k = 0 THEN <<0, 0>> ELSE <<j + ms[k], s[j + ms[k]]>>
SpecAt(s, i) ==
  LET pos == At(s, i + 1) \in 49..57 /\ At(s, i + 2) = 36
      ne  == RunEnd(s, i + 2, Word \cup {46})
      nam == At(s, i + 1) = 40 /\ ne > i + 2 /\ At(s, ne) = 41
      b1  == IF pos THEN Body(s, i + 3) ELSE IF nam THEN Body(s, ne + 1) ELSE <<0, 0>>
      b2  == Body(s, i + 1)
  IN IF b1[1] # 0
     THEN [end |-> b1[1], pos |-> IF pos THEN <<s[i + 1]>> ELSE <<>>, name |-> IF nam THEN SubSeq(s, i + 2, ne - 1) ELSE <<>>, type |-> b1[2]]
     ELSE IF b2[1] # 0 THEN [end |-> b2[1], pos |-> <<>>, name |-> <<>>, type |-> b2[2]]
     ELSE NoMatch
TypeName(t) ==
  CASE t = Datetime -> "datetime"
    [] t \in {99, 67, 115, 83} -> "string"
    [] t \in {100, 68, 111, 79, 112, 117, 85, 120, 88} -> "integer"
    [] t \in {97, 65, 101, 69, 102, 70, 103, 71} -> "number"
    [] OTHER -> "printf"
Arg == <<97, 114, 103>>
Placeholder(s, i, m) ==
  IF m.type = Pct
  THEN [t |-> "exp", kind |-> "lit", arg |-> <<Pct>>, fn |-> "", src |-> SubSeq(s, i, m.end)]
  ELSE [t |-> "exp", kind |-> "var", arg |-> IF m.name # <<>> THEN m.name ELSE Arg \o m.pos, fn |-> TypeName(m.type), src |-> SubSeq(s, i, m.end)]
TextPart(s) == [t |-> "txt", kind |-> "", arg |-> s, fn |-> "", src |-> s]
\* the parts of s from position i on; text has been collected since position b
RECURSIVE Parts(_, _, _)
Parts(s, b, i) ==
  LET n == IndexFrom(s, Pct, i)
      m == IF n = 0 THEN NoMatch ELSE SpecAt(s, n)
  IN IF n = 0 THEN IF b <= Len(s) THEN <<TextPart(From(s, b))>> ELSE <<>>
     ELSE IF m.end = 0 THEN Parts(s, b, n + 1)
     ELSE (IF n > b THEN <<TextPart(SubSeq(s, b, n - 1))>> ELSE <<>>)
          \o <<Placeholder(s, n, m)>> \o Parts(s, m.end + 1, m.end + 1)
PrintfParts(s) == Parts(s, 1, 1)
Sources(ps) == FoldLeft(LAMBDA a, p : a \o p.src, <<>>, ps)
PrintfVerdict(ev) ==
  IF ev.raised THEN {"raised"}
  ELSE (IF ev.parts = PrintfParts(ev.s) THEN {} ELSE {"parts"})
       \cup (IF Sources(ev.parts) = ev.s THEN {} ELSE {"text_lost"})
=============================================================================
