----------------------------- MODULE MC_Detect ------------------------------
(* Documents of nested JSON objects and names grow step by step.  Detection  *)
(* is a function of both; a distinctive extension decides alone; a comment   *)
(* never turns anything but messages into a supported file; and renaming     *)
(* between names without such an extension changes the format only if one    *)
(* of them is for XML.                                                       *)
EXTENDS Detect, TLC, Json, IOUtils
CONSTANTS MaxTok
VARIABLES text, name, want, depth, n
Strs == {<<34, 97, 34>>, <<34>> \o kMessage \o <<34>>, <<34>> \o kDescription \o <<34>>, <<34>> \o kPlaceholders \o <<34>>}
NoXml == [wf |-> FALSE, ns |-> "", tag |-> ""]
Src == [text |-> text, undec |-> FALSE, xml |-> NoXml]
Names == {<<>>, <<97>>, <<97>> \o xXml, <<97, 46, 106>>, xFtl, <<97>> \o xFtl, <<97>> \o xFtl \o <<47, 98>>, <<97, 46>> \o xPo, <<46, 46, 97>> \o xXliff, <<97>> \o xDtd \o <<46>>, <<46, 47>> \o xIni}
Init == name \in Names /\ text = <<>> /\ want = "value" /\ depth = 0 /\ n = 0
Tok(s, w, d) == text' = text \o s /\ want' = w /\ depth' = d /\ name' = name
Write ==
  \/ want \in {"first", "key"} /\ \E s \in Strs : Tok(s \o <<58>>, "value", depth)
  \/ want = "value" /\ depth > 0 /\ Tok(<<34, 120, 34>>, "next", depth)
  \/ want = "value" /\ depth > 0 /\ depth < 3 /\ Tok(<<48>>, "next", depth)
  \/ want = "value" /\ Tok(<<123>>, "first", depth + 1)
  \/ want = "next" /\ Tok(<<44>>, "key", depth)
  \/ want \in {"first", "next"} /\ Tok(<<125>>, IF depth = 1 THEN "end" ELSE "next", depth - 1)
Comment == want \in {"first", "next", "end"} /\ (text = <<>> \/ Last(text) # 10) /\ Tok(<<47, 47, 10>>, want, depth)
Next == n < MaxTok /\ n' = n + 1 /\ (Write \/ Comment)
Spec == Init /\ [][Next]_<<text, name, want, depth, n>>
D(nm) == Detect(nm, Src, FALSE)
Function == Cardinality(D(name)) = 1
ByExt == ByName(name) # "none" => D(name) = {ByName(name)} /\ Detect(name, [Src EXCEPT !.text = <<>>], TRUE) = D(name)
Unfinished == want # "end" /\ ByName(name) = "none" => D(name) = {"none"}
NoComments == SelectInSeq(text, LAMBDA c : c = 47) = 0
Commented == ~NoComments /\ ByName(name) = "none" => D(name) \in {{"none"}, {"webext"}}
Renamed == \A m \in Names : ByName(name) = "none" /\ ByName(m) = "none" /\ Ext(m) # xXml /\ Ext(name) # xXml => D(m) = D(name)
Nested == D(<<>>) = {"webext"} => want = "end" /\ (SelectInSeq(text, LAMBDA c : c = 58) = 0 \/ \E i \in 1..Len(text) : StartsWith(From(text, i), kMessage))
Emit == (IOEnv.EMIT = "1" /\ (n < MaxTok \/ want \in {"end", "next"})) => PrintT("CASE " \o ToJson([name |-> name, text |-> text]))
=============================================================================
