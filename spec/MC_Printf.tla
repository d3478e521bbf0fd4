------------------------------ MODULE MC_Printf -----------------------------
(* every string of up to MaxN atoms *)
EXTENDS Printf, Json, IOUtils
CONSTANT MaxN
VARIABLES s, n
Atoms == {<<37>>, <<49, 36>>, <<49>>, <<36>>, <<40, 97, 41>>, <<40>>, <<46>>, <<48>>, <<32>>, <<104>>, <<108>>, <<116>>, <<100>>, <<115>>, <<122>>, <<64>>, <<233>>}
Init == s = <<>> /\ n = 0
Next == n < MaxN /\ n' = n + 1 /\ \E a \in Atoms : s' = s \o a
Spec == Init /\ [][Next]_<<s, n>>
Tiling == Sources(PrintfParts(s)) = s
\* no text part contains a whole specifier; text parts are never adjacent or empty
Complete == LET ps == PrintfParts(s) IN \A i \in 1..Len(ps) :
  /\ ps[i].src # <<>>
  /\ ps[i].t = "txt" => (i < Len(ps) => ps[i + 1].t = "exp") /\ \A j \in 1..Len(ps[i].src) : ps[i].src[j] = Pct => SpecAt(ps[i].src, j).end = 0
Emit == IOEnv.EMIT = "1" => PrintT("CASE " \o ToJson([s |-> s]))
=============================================================================
