----------------------------- MODULE XmlComment -----------------------------
(* How comments are read from XML comments, and written to them.             *)
EXTENDS Text
Dashed(c) ==
  LET l == Split(c, 10)  n == Len(l)  d == <<32, 32, 32, 45, 32>> IN
  /\ n > 1 /\ Len(l[1]) > 1 /\ l[1][1] = 32
  /\ \A i \in 2..n : StartsWith(l[i], d)
  /\ Len(l[n]) > 5 /\ l[n][Len(l[n])] = 32
StripLines(c) == LET l == Split(c, 10) IN TrimSet(JoinWith([i \in 1..Len(l) |-> Strip(l[i])], <<10>>), {10})
OneComment(c) == IF Dashed(c) THEN LET l == Split(c, 10) IN TrimSet(JoinWith([i \in 1..Len(l) |-> IF i = 1 THEN l[1] ELSE From(l[i], 6)], <<10>>), {32}) ELSE StripLines(c)
CommentStr(cs) == LET n == SelectSeq(cs, LAMBDA c : c # <<>>) IN TrimSet(JoinWith([i \in 1..Len(n) |-> OneComment(n[i])], <<10, 10>>), {10})
\* comments cannot have two dashes in a row
RECURSIVE Undash(_)
Undash(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = 45 /\ s[2] = 45 THEN <<45, 8203, 45, 8203>> \o Undash(From(s, 3)) ELSE <<s[1]>> \o Undash(Tail(s))
NormCom(c) == StripLines(Undash(Strip(c)))
=============================================================================
