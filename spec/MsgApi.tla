-------------------------------- MODULE MsgApi --------------------------------
(* C32: messages on their own.  The outcome of a call is [k |-> "ok", m |->  *)
(* message] (or s |-> text), or k = "err".                                   *)
EXTENDS Trim
Formats == {"android", "dtd", "fluent", "gettext", "inc", "ini", "mf2", "plain_json", "properties", "webext", "xliff"}
Plain == {"dtd", "gettext", "inc", "ini", "plain_json"}
Txt(s) == [t |-> "txt", s |-> s]
AsIs(s) == [t |-> "pat", decl |-> <<>>, p |-> IF s = <<>> THEN <<>> ELSE <<Txt(s)>>]
\* the options of parsing that are about a format
About(fmt) == CASE fmt = "android" -> {"ascii"} [] fmt = "webext" -> {"ph"} [] fmt = "xliff" -> {"xcode"} [] fmt \in {"fluent", "mf2"} -> {} [] OTHER -> {"printf"}
\* the text of a placeholder
cSource == <<115, 111, 117, 114, 99, 101>>
SourceOf(x) == LET i == SelectInSeq(x.attr, LAMBDA a : a.n = cSource) IN IF i = 0 \/ x.attr[i].v.t # "lit" THEN <<>> ELSE <<x.attr[i].v.s>>
HasText(x) == x.t = "txt" \/ SourceOf(x) # <<>>
TextOf(x) == IF x.t = "txt" THEN x.s ELSE SourceOf(x)[1]
\* serialized as it is, or refused
Text_(m) == IF m.t # "pat" \/ m.decl # <<>> \/ ~All(m.p, HasText) THEN <<>> ELSE <<Concat([i \in 1..Len(m.p) |-> TextOf(m.p[i])])>>
\* Fluent: a literal is as good as the text
IsLit(x) == x.t = "exp" /\ x.arg.t = "lit" /\ x.fn = <<>> /\ x.opt = <<>> /\ x.attr = <<>>
Unquoted(p) == [i \in 1..Len(p) |-> IF IsLit(p[i]) THEN Txt(p[i].arg.s) ELSE p[i]]
Canon(fmt, m) == IF fmt # "fluent" THEN NormVal(m)
                 ELSE NormVal(IF m.t = "pat" THEN [m EXCEPT !.p = Unquoted(@)] ELSE [m EXCEPT !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = Unquoted(@)]]])
\* Android: text that is itself the source of a placeholder or an element
Misread(fmt, m) == fmt = "android" /\ m.t = "pat" /\ \E i \in 1..Len(m.p) : m.p[i].t = "txt" /\ (37 \in Range(m.p[i].s) \/ 60 \in Range(m.p[i].s))
SameAs(fmt, a, b) == a.k = b.k /\ (a.k = "ok" => Canon(fmt, a.m) = Canon(fmt, b.m))
Same(a, b) == a.k = b.k /\ (a.k = "ok" => NormVal(a.m) = NormVal(b.m))
SameText(a, b) == a.k = b.k /\ (a.k = "ok" => a.s = b.s)
ParseVerdict(e) ==
  If(e.api.k # "other" /\ (e.api.k = e.own.k) /\ (e.api.k = "ok" => e.api.m = e.own.m), "dispatch")
  \cup (IF e.fmt \in Plain THEN If(e.api.k = "ok" /\ (IF e.printf THEN Text_(e.api.m) = <<e.s>> ELSE e.api.m = AsIs(e.s)), "plain") ELSE {})
  \cup (IF e.emb.k = "none" THEN {} ELSE If(Same(e.api, e.emb), "not_as_in_file"))
SerVerdict(e) ==
  If(SameText(e.ser, e.serown), "serialize_dispatch")
  \cup If(~e.changed, "changed")
  \cup (IF e.m.t = "pat" /\ e.m.decl = <<>> THEN If(SameText(e.ser, e.list), "pattern") ELSE {})
  \cup (IF e.fmt \in Plain THEN If(IF Text_(e.m) = <<>> THEN e.ser.k = "err" ELSE e.ser.k = "ok" /\ e.ser.s = Text_(e.m)[1], "plain_text") ELSE {})
  \cup If(e.safe /\ ~Misread(e.fmt, e.m) => SameAs(e.fmt, [k |-> "ok", m |-> e.m], e.back), "round_trip")
MsgVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] e.op = "parse" -> ParseVerdict(e) \cup (IF e.api.k = "ok" THEN SerVerdict(e.then) ELSE {})
    [] e.op = "ser" -> SerVerdict(e)
=============================================================================
