--------------------------- MODULE AndroidLocale ----------------------------
(* C14: BCP 47 tags <-> Android resource qualifiers (code point sequences). *)
EXTENDS Text
Dash == 45
Plus == 43
\* current code, legacy code
Legacy == { <<<<104, 101>>, <<105, 119>>>>,    \* he iw
            <<<<105, 100>>, <<105, 110>>>>,    \* id in
            <<<<121, 105>>, <<106, 105>>>> }   \* yi ji
OldCode(lc) == IF \E p \in Legacy : p[1] = lc THEN (CHOOSE p \in Legacy : p[1] = lc)[2] ELSE lc
NewCode(lc) == IF \E p \in Legacy : p[2] = lc THEN (CHOOSE p \in Legacy : p[2] = lc)[1] ELSE lc
IsRegion(s) == Len(s) = 2 /\ s[1] \in Upper /\ s[2] \in Upper
IsSubtag(s) == Len(s) \in 1..8 /\ All(s, LAMBDA c : c \in Alpha \cup Digit)
IsLang(s) == Len(s) \in 2..3 /\ All(s, LAMBDA c : c \in Lower)
\* the tags the conversion is for: language code (not itself a legacy one) and further subtags
IsTag(t) ==
  LET p == Split(t, Dash) IN
  IsLang(p[1]) /\ (~\E q \in Legacy : q[2] = p[1]) /\ \A i \in 2..Len(p) : IsSubtag(p[i])
ToAndroid(t) ==
  LET p == Split(t, Dash)  lc == OldCode(p[1]) IN
  CASE Len(p) = 1 -> lc
    [] Len(p) = 2 /\ IsRegion(p[2]) -> lc \o <<Dash, 114>> \o p[2]
    [] OTHER -> <<98, Plus>> \o JoinWith(<<lc>> \o Tail(p), <<Plus>>)
None == <<-1>>
FromAndroid(q) ==
  IF StartsWith(q, <<98, Plus>>)
  THEN LET p == Split(From(q, 3), Plus) IN
       IF \A i \in 1..Len(p) : IsSubtag(p[i]) THEN JoinWith(<<NewCode(p[1])>> \o Tail(p), <<Dash>>) ELSE None
  ELSE LET p == Split(q, Dash) IN
       IF Len(p) = 1 /\ IsLang(p[1]) THEN NewCode(p[1])
       ELSE IF Len(p) = 2 /\ IsLang(p[1]) /\ Len(p[2]) = 3 /\ p[2][1] = 114 /\ IsRegion(Tail(p[2]))
            THEN NewCode(p[1]) \o <<Dash>> \o Tail(p[2])
       ELSE None
(* ev: op "tag": the tag, what it converts to, and what that converts back to; op "qual": a string and what it parses to *)
LocaleVerdict(ev) ==
  IF ev.raised THEN {"raised"}
  ELSE IF ev.op = "tag"
  THEN (IF ev.to = ToAndroid(ev.tag) THEN {} ELSE {"to_android"})
       \cup (IF IsTag(ev.tag) /\ ev.back # ev.tag THEN {"round_trip"} ELSE {})
  ELSE IF ev.out = FromAndroid(ev.q) THEN {} ELSE {"from_android"}
=============================================================================
