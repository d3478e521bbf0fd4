----------------------------- MODULE MC_JsonDoc -----------------------------
(* Writing nested JSON objects token by token, with comments and spaces in   *)
(* between: a finished document has the leaves written, and is JSON without  *)
(* comments exactly when no comment was written.                             *)
EXTENDS JsonText, Json, IOUtils
CONSTANTS MaxTok
VARIABLES text, want, depth, n, com, leaves
Strs == {<<34, 97, 34>>, <<34, 47, 47, 34>>, <<34, 92, 34, 47, 47, 34>>}
Init == text = <<123>> /\ want = "first" /\ depth = 1 /\ n = 0 /\ com = FALSE /\ leaves = 0
Tok(s, w, d, l) == text' = text \o s /\ want' = w /\ depth' = d /\ leaves' = leaves + l /\ com' = com
Write ==
  \/ want \in {"first", "key"} /\ \E s \in Strs : Tok(s, "colon", depth, 0)
  \/ want = "colon" /\ Tok(<<58>>, "value", depth, 0)
  \/ want = "value" /\ \E s \in Strs : Tok(s, "next", depth, 1)
  \/ want = "value" /\ Tok(<<123>>, "first", depth + 1, 0)
  \/ want = "next" /\ Tok(<<44>>, "key", depth, 0)
  \/ want \in {"first", "next"} /\ Tok(<<125>>, IF depth = 1 THEN "end" ELSE "next", depth - 1, 0)
Comment == ~com /\ \E c \in {<<47, 47, 34, 10>>, <<47, 47, 47, 47, 123, 10>>} : text' = text \o c /\ com' = TRUE /\ UNCHANGED <<want, depth, leaves>>
Next == n < MaxTok /\ n' = n + 1 /\ (Write \/ Comment)
Spec == Init /\ [][Next]_<<text, want, depth, n, com, leaves>>
J == ParseJson(text, TRUE)
Finished == J.ok <=> want = "end"
Plain == ParseJson(text, FALSE).ok <=> (want = "end" /\ ~com)
Leaf == want = "end" => Len(Leaves(<<>>, J.v)) <= leaves /\ (leaves > 0 /\ Leaves(<<>>, J.v) = <<>> => \E i \in 1..Len(text) : text[i] = 44)
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([k |-> "json", text |-> text]))
=============================================================================
