------------------------------ MODULE MC_IncIni ------------------------------
(* Every document of up to MaxLen lines over characteristic lines of .inc and *)
(* .ini files: no option, definition or comment is lost by parsing, writing   *)
(* what was parsed denotes the same, and the kinds of line partition.         *)
EXTENDS Text, Json, IOUtils
CONSTANTS MaxLen
VARIABLES fmt, text, n
INC == INSTANCE Inc
INI == INSTANCE Ini
cD == <<35, 100, 101, 102, 105, 110, 101>>
IncLines == {<<>>, <<32>>, <<35>>, <<35, 32, 99>>, <<35, 32, 35, 99>>, <<35, 99>>, cD \o <<32, 97, 32, 120>>, cD \o <<9, 98>>, cD \o <<32, 97, 45>>, cD, <<99>>, <<35, 32, 32, 99, 32>>}
IniLines == {<<>>, <<32>>, <<35>>, <<59, 99>>, <<35, 32, 99>>, <<114, 101, 109, 32, 99>>, <<114, 101, 109, 61, 120>>, <<91, 115, 93>>, <<91, 116, 93, 32, 59, 32, 99>>, <<97, 61, 120>>,
             <<98, 32, 58, 32, 120, 32, 59, 99>>, <<97, 61>>, <<32, 99, 120>>, <<32, 35>>, <<61>>}
Pool == IF fmt = "inc" THEN IncLines ELSE IniLines
Init == fmt \in {"inc", "ini"} /\ text \in {<<>>} /\ n = 0
Next == /\ n < MaxLen /\ n' = n + 1 /\ fmt' = fmt
        /\ \E l \in Pool : text' = IF n = 0 THEN l ELSE text \o <<10>> \o l
Spec == Init /\ [][Next]_<<fmt, text, n>>
Letters(s) == Len(SelectSeq(s, LAMBDA c : c = 99))
CountIn(items) == FoldLeft(LAMBDA a, e : a + Letters(e.com) + (IF e.t = "ent" THEN Letters(e.val) ELSE 0), 0, items)
NothingLost ==
  IF fmt = "inc" THEN LET p == INC!Parse(text, {}) IN p.ok => CountIn(p.items) = Letters(text)
  ELSE LET p == INI!Parse(text) IN p.ok => Letters(p.com) + FoldLeft(LAMBDA a, s : a + Letters(s.com) + CountIn(s.items), 0, p.secs) = Letters(text)
EntryCount ==
  IF fmt = "inc" THEN LET p == INC!Parse(text, {}) ls == INC!Lines(text) IN
    p.ok => Len(SelectSeq(p.items, LAMBDA e : e.t = "ent")) = Cardinality({i \in 1..Len(ls) : INC!Define(ls[i], {}).ok})
  ELSE LET p == INI!Parse(text) ls == INI!Lines(text) IN
    p.ok => /\ Len(p.secs) = Cardinality({i \in 1..Len(ls) : INI!Line(ls[i]).k = "sec"})
            /\ FoldLeft(LAMBDA a, s : a + Len(SelectSeq(s.items, LAMBDA e : e.t = "ent")), 0, p.secs) = Cardinality({i \in 1..Len(ls) : INI!Line(ls[i]).k = "opt"})
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([fmt |-> fmt, text |-> text]))
=============================================================================
