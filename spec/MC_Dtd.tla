------------------------------- MODULE MC_Dtd -------------------------------
(* Every sequence of up to MaxLen atoms of a DTD: a well-formed one loses no   *)
(* declaration and no comment, and what it says can be written again.          *)
EXTENDS Dtd, Json, IOUtils
CONSTANTS MaxLen
VARIABLES text, n
E1 == cEntity \o <<32, 97, 32, 34, 120, 34, 62>>                       \* <!ENTITY a "x">
E2 == cEntity \o <<10, 98, 46, 99, 32, 39, 60, 33, 45, 45, 34, 45, 45, 62, 39, 32, 62>>   \* <!ENTITY\nb.c '<!--"-->' >
Cm == <<60, 33, 45, 45>>
Atoms == {E1, E2, Cm, <<45, 45, 62>>, Cm \o <<32, 99, 10, 32, 100, 45, 45, 62>>, Cm \o <<45, 45, 62>>, <<10>>, <<32>>, <<10, 10>>, <<120>>,
          cEntity \o <<32, 37, 32, 112, 32>> \o cSystem \o <<32, 34, 113, 34, 62, 32, 37, 112, 59>>}
Init == text = <<>> /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E a \in Atoms : text' = text \o a
Spec == Init /\ [][Next]_<<text, n>>
EntCount(s) == LET t == Tokens(s) IN Cardinality({i \in 1..Len(t) : t[i].k = "ent"})
NothingLost == LET p == Parse(text) IN p.ok =>
   /\ Cardinality({i \in 1..Len(p.items) : p.items[i].t = "ent"}) = EntCount(text)
   /\ LET t == Tokens(text)
          all == Concat([i \in 1..Len(t) |-> IF t[i].k = "com" THEN SelectSeq(t[i].text, LAMBDA c : c = 99) ELSE <<>>])
          kept == SelectSeq(p.rescom, LAMBDA c : c = 99) \o Concat([i \in 1..Len(p.items) |-> SelectSeq(p.items[i].com, LAMBDA c : c = 99)])
      IN Len(all) = Len(kept)

SumLen(t) == FoldLeft(LAMBDA a, i : IF t[i].k = "other" THEN a + Len(t[i].text) ELSE t[i].end - 1, 0, [i \in 1..Len(t) |-> i])
TokensTile == SumLen(Tokens(text)) = Len(text)
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([text |-> text]))
=============================================================================
