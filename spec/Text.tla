-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of code points. *)
EXTENDS Base
PyWhite == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
TrimLeft(s, W) ==
  LET k == SelectInSeq(s, LAMBDA c : c \notin W) IN IF k = 0 THEN <<>> ELSE SubSeq(s, k, Len(s))
TrimRight(s, W) ==
  LET k == SelectLastInSeq(s, LAMBDA c : c \notin W) IN SubSeq(s, 1, k)
TrimSet(s, W) == TrimRight(TrimLeft(s, W), W)
Strip(s) == TrimSet(s, PyWhite)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
From(s, i) == SubSeq(s, i, Len(s))
\* position of c in s at or after i, 0 if none
IndexFrom(s, c, i) == LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA x : x = c) IN IF k = 0 THEN 0 ELSE k + i - 1
\* split at every occurrence of the code point c
Split(s, c) ==
  LET r == FoldLeft(LAMBDA st, x : IF x = c THEN [done |-> Append(st.done, st.cur), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, x)],
                    [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)
JoinWith(ss, sep) == FoldLeft(LAMBDA st, x : IF st.n = 0 THEN [n |-> 1, s |-> x] ELSE [n |-> 1, s |-> st.s \o sep \o x], [n |-> 0, s |-> <<>>], ss).s
Digit == 48..57
Lower == 97..122
Upper == 65..90
Alpha == Lower \cup Upper
HexDigit == Digit \cup 65..70 \cup 97..102
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
All(s, P(_)) == SelectInSeq(s, LAMBDA c : ~P(c)) = 0
=============================================================================
