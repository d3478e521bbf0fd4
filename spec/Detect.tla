------------------------------- MODULE Detect -------------------------------
(* C28: the format of a file, from its name and contents, and what follows   *)
(* for every way of parsing it.  XML contents are given by their root: wf    *)
(* (well-formed), its tag as written and its default namespace.              *)
EXTENDS JsonText
Base_(name) == LET k == SelectLastInSeq(name, LAMBDA c : c = 47) IN From(name, k + 1)
Ext(name) ==
  LET b == TrimLeft(Base_(name), {46})
      k == SelectLastInSeq(b, LAMBDA c : c = 46)
  IN IF k = 0 THEN <<>> ELSE From(b, k)
xDtd == <<46, 100, 116, 100>>
xFtl == <<46, 102, 116, 108>>
xPo == <<46, 112, 111>>
xPot == <<46, 112, 111, 116>>
xInc == <<46, 105, 110, 99>>
xIni == <<46, 105, 110, 105>>
xProperties == <<46, 112, 114, 111, 112, 101, 114, 116, 105, 101, 115>>
xXlf == <<46, 120, 108, 102>>
xXliff == <<46, 120, 108, 105, 102, 102>>
xXml == <<46, 120, 109, 108>>
ByName(name) ==
  LET x == Ext(name) IN
  CASE x = xDtd -> "dtd" [] x = xFtl -> "fluent" [] x \in {xPo, xPot} -> "gettext" [] x = xInc -> "inc" [] x = xIni -> "ini"
    [] x = xProperties -> "properties" [] x \in {xXlf, xXliff} -> "xliff" [] OTHER -> "none"
kMessage == <<109, 101, 115, 115, 97, 103, 101>>
kDescription == <<100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>
kPlaceholders == <<112, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114, 115>>
RECURSIVE OfStrings(_)
OfStrings(v) == v.t = "obj" /\ \A i \in 1..Len(v.m) : v.m[i].v.t = "str" \/ OfStrings(v.m[i].v)
IsMessage(v) == v.t = "obj" /\ Has(v, kMessage) /\ \A i \in 1..Len(v.m) :
  LET f == v.m[i] IN CASE f.k \in {kMessage, kDescription} -> f.v.t = "str" [] f.k = kPlaceholders -> f.v.t = "obj" [] OTHER -> FALSE
Json_(text) ==
  LET t == IF At(text, 1) = 65279 THEN Tail(text) ELSE text
      j == ParseJson(t, TRUE)
  IN IF ~j.ok THEN "none"
     ELSE IF ~OfStrings(j.v) THEN "none"
     ELSE IF \A i \in 1..Len(j.v.m) : IsMessage(j.v.m[i].v) THEN "webext"
     ELSE IF j.com THEN "none" ELSE "plain_json"
XliffNs == {"urn:oasis:names:tc:xliff:document:1.0", "urn:oasis:names:tc:xliff:document:1.1", "urn:oasis:names:tc:xliff:document:1.2"}
\* contents without a well-formed root may be refused or taken for what they begin as
Xml_(xml) ==
  IF ~xml.wf THEN {"none", "android", "xliff"}
  ELSE IF xml.ns # "" THEN IF xml.ns \in XliffNs THEN {"xliff"} ELSE {"none"}
  ELSE IF xml.tag = "resources" THEN {"android"} ELSE {"none"}
NeedXml == {"android", "xliff"}
\* src: [text, undec, xml]; lx: XML is supported
ByContents(name, src, lx) ==
  LET j == IF Ext(name) = xXml \/ src.undec THEN "none" ELSE Json_(src.text) IN
  IF j # "none" THEN {j} ELSE IF lx THEN Xml_(src.xml) ELSE {"none"}
Detect(name, src, lx) == IF ByName(name) # "none" THEN {ByName(name)} ELSE ByContents(name, src, lx)
If(c, n) == IF c THEN {} ELSE {n}
Same(s) == \A i \in 2..Len(s) : s[i] = s[1]
Unsupported == "!UnsupportedFormat"
DetectVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] e.op = "detect" ->
         LET d == e.dets[1] IN
         If(Same(e.dets), "text_and_bytes")
         \cup If(d \in Detect(e.name, e.src, e.lxml), "format")
         \cup If(e.bare = ByName(e.name), "format_by_name")
         \cup If(Same(e.runs), "ways_of_parsing")
         \cup If((d = "none" \/ (~e.lxml /\ d \in NeedXml)) <=> e.runs[1] = Unsupported, "unsupported")
    [] e.op = "dispatch" -> UNION {If(Same(e.pairs[i]), "dispatch") : i \in 1..Len(e.pairs)} \cup If(\A i \in 1..Len(e.refused) : e.refused[i] \in {Unsupported, "!ValueError"}, "unknown_format")
=============================================================================
