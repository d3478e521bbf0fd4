--------------------------- MODULE MC_WalkFiles ----------------------------
(* every list of up to MaxRules rules of a vocabulary, over one tree *)
EXTENDS WalkFiles, Json, IOUtils
CONSTANT MaxRules
Files == { <<97, 46, 102, 116, 108>>, <<98, 46, 112, 111>>, <<46, 104, 105, 100>>, <<120, 47, 97, 46, 102, 116, 108>>, <<120, 47, 98, 46, 102, 116, 108>>, <<120, 47, 121, 47, 97, 46, 102, 116, 108>>, <<120, 47, 121, 47, 99, 46, 112, 111>>, <<121, 47, 97, 46, 102, 116, 108>>, <<46, 104, 47, 97, 46, 102, 116, 108>>, <<120, 47, 46, 104, 47, 98, 46, 112, 111>>, <<97, 47, 98, 47, 99, 46, 102, 116, 108>>, <<122, 47, 120, 47, 97, 46, 102, 116, 108>> }
Vocab == { <<97, 46, 102, 116, 108>>, <<47, 97, 46, 102, 116, 108>>, <<120>>, <<120, 47>>, <<47, 120>>, <<47, 120, 47>>, <<120, 47, 121>>, <<120, 47, 121, 47>>, <<42, 46, 112, 111>>, <<42>>, <<120, 47, 42>>, <<47, 120, 47, 42, 46, 102, 116, 108>>, <<121>>, <<33, 97, 46, 102, 116, 108>>, <<33, 47, 97, 46, 102, 116, 108>>, <<33, 120>>, <<33, 120, 47>>, <<33, 46, 104>>, <<33, 46, 104, 105, 100>>, <<33, 42, 46, 112, 111>>, <<33, 42>>, <<42, 42, 47, 121>>, <<120, 47, 42, 42>>, <<33, 120, 47, 42, 42>>, <<63, 46, 102, 116, 108>>, <<35, 97, 46, 102, 116, 108>>, <<32, 32>>, <<120, 47, 97, 46, 102, 116, 108>>, <<33, 120, 47, 121, 47, 97, 46, 102, 116, 108>>, <<46, 42>> }
VARIABLE lines
Init == lines = <<>>
Next == Len(lines) < MaxRules /\ \E r \in Vocab : lines' = Append(lines, r)
Spec == Init /\ [][Next]_lines
L(ls) == Listed(Rules(ls), Files, {<<>>})
Neg(r) == IsRule(r) /\ RuleOf(r).neg
\* an ordinary rule only removes files, a negated one only adds them
Monotone == [][LET r == Last(lines') IN IF Neg(r) THEN L(lines) \subseteq L(lines') ELSE L(lines') \subseteq L(lines)]_lines
HiddenStayHidden == (\A i \in 1..Len(lines) : ~Neg(lines[i])) => \A f \in L(lines) : f[1] # 46 /\ \A i \in 1..Len(f) - 1 : f[i] = Slash => f[i + 1] # 46
\* nothing inside an excluded directory is listed
NoneInside == \A f \in L(lines) : \A a \in Ancestors(f, <<>>) : ~Ignored(Rules(lines), a, TRUE)
Emit == IOEnv.EMIT = "1" => PrintT("CASE " \o ToJson([files |-> Files, lines |-> lines]))
=============================================================================
