------------------------------ MODULE MC_Merge ------------------------------
(* Exhaustive: every target of <= 2 sections merged with every small source, *)
(* then merged again: guarantees of C09 on the design; emits the cases.      *)
EXTENDS Merge, Json, IOUtils
CONSTANTS TgtSecs, SrcSecs, Full
E(id, v) == [t |-> "ent", id |-> <<id>>, val |-> [t |-> "str", s |-> v], props |-> <<>>, com |-> "", meta |-> <<>>, lp |-> <<>>]
C == [t |-> "com", com |-> "note", lp |-> <<>>]
EntSeqs(vals) == {<<>>} \cup {<<E(i, v)>> : i \in {"a", "b"}, v \in vals}
   \cup {<<E("a", v), E("b", w)>> : v \in vals, w \in vals} \cup {<<E("b", v), E("a", w)>> : v \in vals, w \in vals}
   \cup {<<C, E("a", v)>> : v \in vals} \cup (IF Full THEN {<<E("a", v), C>> : v \in vals} \cup {<<E("c", v)>> : v \in vals} ELSE {})
Sec(id, com, es) == [id |-> id, ents |-> es, com |-> com, meta |-> <<>>, lp |-> <<>>]
Secs(vals) == {Sec(id, com, es) : id \in {<<>>, <<"x">>}, com \in {"", "c"}, es \in EntSeqs(vals)}
Ress(n, vals) == {[fmt |-> "", com |-> "", meta |-> <<>>, secs |-> s] :
   s \in {<<>>} \cup {<<x>> : x \in Secs(vals)} \cup (IF n >= 2 THEN {<<x, y>> : x \in Secs(vals), y \in {z \in Secs(vals) : Len(z.ents) <= 1}} ELSE {})}
VARIABLES tgt, phase, src, pref, cnt
vars == <<tgt, phase, src, pref, cnt>>
NoSrc == [fmt |-> "", com |-> "", meta |-> <<>>, secs |-> <<>>]
Init ==
  /\ tgt \in {r \in Ress(TgtSecs, {"1"}) : ValidRes(r)}
  /\ src \in {r \in Ress(SrcSecs, {"1", "2"}) : ValidRes(r) /\ r # NoSrc}
  /\ pref \in BOOLEAN /\ phase = 0 /\ cnt = 0
Merge(n) == phase = n /\ phase' = n + 1 /\ tgt' = Merged(tgt, src, pref) /\ cnt' = Count(tgt, src, pref) /\ UNCHANGED <<src, pref>>
Next == Merge(0) \/ Merge(1)
Spec == Init /\ [][Next]_vars
\* one source section per id and comment: the merge settles at once
Settled == \A i, j \in 1..Len(src.secs) : i # j => src.secs[i].id # src.secs[j].id
Guarantee ==
  [][ /\ NoLoss(tgt, tgt', pref)
      /\ ExactAdditions(tgt, src, tgt')
      /\ ValidRes(tgt')
      /\ (~pref => cnt' = Additions(tgt, src))
      /\ (pref => SourcePreferred(src, tgt'))
      /\ (phase = 1 /\ (~pref \/ Settled) => cnt' = 0 /\ tgt' = tgt) ]_vars
Emit == (phase = 0 /\ IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([tgt |-> tgt, src |-> src, pref |-> pref]))
=============================================================================
