---------------------------- MODULE MC_Properties ---------------------------
(* Every text of up to MaxLen atoms: positions are ordered, and the text       *)
(* itself, as a key or a value, survives canonical escaping and parsing.       *)
EXTENDS Properties, Json, IOUtils
CONSTANTS MaxLen
VARIABLES text, n
Atoms == {<<97>>, <<61>>, <<32>>, <<9>>, <<92>>, <<10>>, <<13>>, <<13, 10>>, <<35>>, <<92, 117, 48, 48, 54, 49>>, <<117>>, <<92, 10>>, <<58, 110>>}
Init == text = <<>> /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E a \in Atoms : text' = text \o a
Spec == Init /\ [][Next]_<<text, n>>
Ordered ==
  LET p == Parse(text) IN \A i \in 1..Len(p) :
    LET q == p[i].lp IN
    /\ q[1] >= 1 /\ q[1] <= q[2] /\ q[2] <= q[3] /\ q[3] < q[4] /\ q[4] <= Len(Lines(text)) + 1
    /\ i > 1 => p[i-1].lp[4] <= q[1]
Esc(s, first) == Concat([i \in 1..Len(s) |->
   CASE s[i] = BS -> <<BS, BS>> [] s[i] = 10 -> <<BS, 110>> [] s[i] = 13 -> <<BS, 114>> [] s[i] = 9 -> <<BS, 116>>
     [] s[i] \in first -> <<BS, s[i]>> [] OTHER -> <<s[i]>>])
EscVal(s) == LET e == Esc(s, {}) IN IF e # <<>> /\ e[1] = 32 THEN <<BS>> \o e ELSE e
EscKey(s) == Esc(s, {32, 61, 58, 35, 33})
Survives ==
  /\ LET p == Parse(<<97, 61>> \o EscVal(text)) IN Len(p) = 1 /\ p[1].val = text /\ p[1].key = <<97>>
  /\ LET p == Parse(EscKey(text) \o <<61, 97>>) IN Len(p) = 1 /\ p[1].key = text /\ p[1].val = <<97>>
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([text |-> text]))
=============================================================================
