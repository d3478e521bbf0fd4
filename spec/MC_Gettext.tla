----------------------------- MODULE MC_Gettext -----------------------------
(* Every PO file of up to MaxLen lines over characteristic lines: a well-     *)
(* formed one keeps all of its strings and comments (letters q), and every    *)
(* string over the escaped characters survives being written and read.        *)
EXTENDS Gettext, Json, IOUtils
CONSTANTS MaxLen
VARIABLES text, n
Q(s) == <<34>> \o s \o <<34>>
L(k, s) == k \o <<32>> \o Q(s)
Pool == {<<>>, <<35>>, <<35, 32, 113>>, <<35, 46, 32, 113>>, <<35, 58, 32, 113, 58, 49, 32, 121>>, <<35, 44, 32, 113, 44, 121>>, <<35, 126, 32>> \o L(cId, <<113>>), <<35, 126, 32>> \o L(cStr, <<113>>),
         L(cId, <<>>), L(cId, <<97>>), L(cCtxt, <<113>>), L(cPlural, <<113>>), L(cStr, <<113, 92, 110>>), cStr \o <<91, 48, 93, 32>> \o Q(<<113>>), cStr \o <<91, 50, 93, 32>> \o Q(<<113>>),
         Q(<<113, 92, 34>>), L(cStr, <<34>>), L(<<35, 124, 32>> \o cId, <<122>>)}
Init == text \in {<<>>} /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E l \in Pool : text' = IF n = 0 THEN l ELSE text \o <<10>> \o l
Spec == Init /\ [][Next]_<<text, n>>
X(s) == Len(SelectSeq(s, LAMBDA c : c = 113))
Sum(ss) == FoldLeft(LAMBDA a, b : a + X(b), 0, ss)
Lost(p) == LET r == ResourceOf(p, <<>>, FALSE) IN
  X(r.com) + FoldLeft(LAMBDA a, e : a + Sum(e.id) + X(e.com) + Sum([i \in 1..Len(e.meta) |-> e.meta[i].v]) + Sum([i \in 1..Len(e.val) |-> e.val[i].val]), 0, r.ents)
\* repeated forms, a header's own text and trailing comments aside
NothingLost == LET p == Parse(text) IN
  p.ok /\ (\A i \in 1..Len(p.ents) : p.ents[i].id # <<>>) /\ p.fields = <<>> => Lost(p) <= X(text)
Last1(s) == LET ls == SelectSeq(Lines(s), LAMBDA l : l # <<>>) IN IF ls = <<>> THEN 0 ELSE Last(ls)[1]
Keeps == LET p == Parse(text) ls == Lines(text) IN
  p.ok /\ Last1(text) # Hash /\ (\A i \in 1..Len(ls) : ls[i] # L(cId, <<>>)) /\ (\A i \in 1..Len(ls) : \A j \in 1..Len(ls) : i # j /\ Line(ls[i]).k = "mx" => ls[i] # ls[j]) => Lost(p) = X(text)
Escape(s) == Concat([i \in 1..Len(s) |-> IF \E c \in DOMAIN Escapes : Escapes[c] = s[i] THEN LET c == CHOOSE c \in DOMAIN Escapes : Escapes[c] = s[i] IN <<92, c>> ELSE <<s[i]>>])
ASSUME \A k \in 0..4 : \A s \in [1..k -> {92, 34, 110, 10, 113, 9}] : Str(Q(Escape(s))) = [ok |-> TRUE, val |-> s]
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([text |-> text]))
=============================================================================
