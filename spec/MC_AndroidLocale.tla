-------------------------- MODULE MC_AndroidLocale --------------------------
(* Tags built subtag by subtag and qualifier-like strings built atom by atom *)
EXTENDS AndroidLocale, Json, IOUtils
CONSTANTS MaxSub, MaxAtoms
VARIABLES kind, s, n
Langs == {<<104, 101>>, <<105, 100>>, <<121, 105>>, <<105, 119>>, <<101, 110>>, <<115, 114>>, <<102, 105, 108>>, <<105, 110, 104>>, <<98, 98>>}
Subs == {<<71, 66>>, <<103, 98>>, <<76, 97, 116, 110>>, <<52, 49, 57>>, <<118, 97, 108, 101, 110, 99, 105, 97>>, <<120>>, <<114, 71, 66>>, <<73, 78>>, <<71, 66, 82>>}
Atoms == {<<98, 43>>, <<98>>, <<43>>, <<45>>, <<45, 114>>, <<105, 119>>, <<105, 110>>, <<104, 101>>, <<115>>, <<114>>, <<82, 83>>, <<71>>, <<49>>, <<95>>, <<>>}
Init == n = 0 /\ ((kind = "tag" /\ s \in Langs) \/ (kind = "qual" /\ s = <<>>))
Next == n' = n + 1 /\ UNCHANGED kind /\
  \/ kind = "tag" /\ n < MaxSub /\ \E x \in Subs : s' = s \o <<45>> \o x
  \/ kind = "qual" /\ n < MaxAtoms /\ \E x \in Atoms : s' = s \o x
Spec == Init /\ [][Next]_<<kind, s, n>>
RoundTrip == kind = "tag" /\ IsTag(s) => FromAndroid(ToAndroid(s)) = s
\* a qualifier that parses stands for a tag; converting that tag gives an equivalent qualifier
Stable == LET t == FromAndroid(s) IN kind = "qual" /\ t # None /\ IsTag(t) => FromAndroid(ToAndroid(t)) = t
NotGuessed == kind = "qual" /\ FromAndroid(s) # None => Last(s) \in Alpha \cup Digit
Emit == IOEnv.EMIT = "1" => PrintT("CASE " \o ToJson([kind |-> kind, s |-> s]))
=============================================================================
