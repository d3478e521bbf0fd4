----------------------------- MODULE MC_Refuse -----------------------------
(* Resources of each format gain features one by one; each brings words of   *)
(* its own.  A feature can be seen in the resource and stays visible as      *)
(* others come; what must be refused stays refused; every word of a feature  *)
(* belongs to exactly one kind of content; trimming only ever asks for less. *)
EXTENDS Refuse, TLC, Json, IOUtils
CONSTANTS MaxStep
VARIABLES r, prev, fs, n
vars == <<r, prev, fs, n>>
Fmts == {"dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "android", "xliff"}
M(k, v) == [k |-> k, v |-> v]
Lit(s) == [t |-> "lit", s |-> s]
Txt(s) == [t |-> "txt", s |-> s]
Pat(ps) == [t |-> "pat", decl |-> <<>>, p |-> ps]
Val(w) == Pat(<<Txt(w)>>)
Ent(id, v) == [t |-> "ent", id |-> id, val |-> v, props |-> <<>>, com |-> <<>>, meta |-> <<>>]
Sec(id, es) == [id |-> id, ents |-> es, com |-> <<>>, meta |-> <<>>]
Src(s) == IF s = <<>> THEN <<>> ELSE <<[n |-> cSource, v |-> Lit(s)]>>
\* what a placeholder of the format looks like
SrcText(f) == CASE f = "android" -> <<37, 49, 36, 115>> [] f = "webext" -> <<36, 49>> [] f = "xliff" -> <<37, 115>> [] OTHER -> <<37, 115>>
ArgName(f) == IF f \in {"android", "webext"} THEN <<97, 114, 103, 49>> ELSE <<120, 55>>
Exp(src, f) == [t |-> "exp", arg |-> [t |-> "var", s |-> ArgName(f)], fn |-> IF f = "android" THEN <<115, 116, 114, 105, 110, 103>> ELSE <<>>, opt |-> <<>>, attr |-> Src(src)]
Mku(src, kind) == [t |-> "mku", kind |-> kind, name |-> <<98>>, opt |-> <<>>, attr |-> Src(src)]
\* a placeholder for a local variable
Local(f, fn) == [Pat(<<Txt(<<116, 52, 113, 32>>), [Exp(IF f = "webext" THEN <<36, 88, 36>> ELSE SrcText(f), f) EXCEPT !.arg.s = <<120>>, !.fn = <<>>]>>) EXCEPT !.decl = <<[n |-> <<120>>, e |-> [Exp(SrcText(f), f) EXCEPT !.fn = fn]]>>]
Named(f) == f \in {"ini", "xliff"}
Base0(f) == [fmt |-> f, com |-> <<>>, meta |-> IF f = "xliff" THEN <<M(<<64, 120, 109, 108, 110, 115>>, <<117, 114, 110, 58, 111, 97, 115, 105, 115, 58, 110, 97, 109, 101, 115, 58, 116, 99, 58, 120, 108, 105, 102, 102, 58, 100, 111, 99, 117, 109, 101, 110, 116, 58, 49, 46, 50>>), M(<<64, 118, 101, 114, 115, 105, 111, 110>>, <<49, 46, 50>>)>> ELSE <<>>,
             secs |-> <<Sec(IF Named(f) THEN <<<<115, 49, 113>>>> ELSE <<>>, <<Ent(<<<<107, 49, 113>>>>, Val(<<118, 49, 113>>)), Ent(<<<<107, 50, 113>>>>, Val(<<118, 50, 113>>))>>)>>]
\* a plural select as the format has it
SelKeys(f) == IF f = "gettext" THEN <<<<48>>, <<49>>>> ELSE <<<<111, 110, 101>>, <<111, 116, 104, 101, 114>>>>
Sel(f) == [t |-> "sel", decl |-> <<[n |-> <<110>>, e |-> [t |-> "exp", arg |-> [t |-> "var", s |-> <<110>>], fn |-> <<110, 117, 109, 98, 101, 114>>, opt |-> <<>>, attr |-> <<>>]]>>, sel |-> <<<<110>>>>,
           var |-> <<[k |-> <<[t |-> "key", s |-> SelKeys(f)[1]]>>, p |-> <<Txt(<<118, 56, 113>>)>>], [k |-> <<[t |-> "any", s |-> <<61>> \o SelKeys(f)[2]]>>, p |-> <<Txt(<<118, 57, 113>>)>>]>>]
MetaKey(f, what) ==
  CASE f = "xliff" -> (IF what = "res" THEN <<64, 113>> ELSE IF what = "sec" THEN <<64, 100, 97, 116, 97, 116, 121, 112, 101>> ELSE <<110, 111, 116, 101>>)
    [] f = "android" -> (IF what = "res" THEN <<120, 109, 108, 110, 115, 58, 116, 111, 111, 108, 115>> ELSE <<112, 114, 111, 100, 117, 99, 116>>)
    [] f = "gettext" -> (IF what = "res" THEN <<76, 97, 110, 103, 117, 97, 103, 101>> ELSE <<114, 101, 102, 101, 114, 101, 110, 99, 101>>)
    [] OTHER -> <<120>>
AddMeta(m, f, what, w) == Append(m, M(MetaKey(f, what), w))
\* the feature f2 of a resource x; most are of the second entry of the first section
Add(x, f2) ==
  LET f == x.fmt IN
  CASE f2 = "res_comment" -> [x EXCEPT !.com = <<99, 49, 113>>]
    [] f2 = "res_meta" -> [x EXCEPT !.meta = AddMeta(@, f, "res", <<109, 49, 113>>)]
    [] f2 = "sec_comment" -> [x EXCEPT !.secs[1].com = <<99, 50, 113>>]
    [] f2 = "sec_meta" -> [x EXCEPT !.secs[1].meta = AddMeta(@, f, "sec", <<109, 50, 113>>)]
    [] f2 = "sec_id" -> [x EXCEPT !.secs = Append(@, Sec(<<<<115, 50, 113>>>>, <<Ent(<<<<107, 51, 113>>>>, Val(<<118, 51, 113>>))>>))]
    [] f2 = "sec_id2" -> [x EXCEPT !.secs = Append(@, Sec(<<<<115, 51, 113>>, <<115, 52, 113>>>>, <<Ent(<<<<107, 52, 113>>>>, Val(<<118, 52, 113>>))>>))]
    [] f2 = "no_sec_id" -> [x EXCEPT !.secs = Append(@, Sec(<<>>, <<Ent(<<<<107, 53, 113>>>>, Val(<<118, 53, 113>>))>>))]
    [] f2 = "standalone" -> [x EXCEPT !.secs[1].ents = <<[t |-> "com", com |-> <<99, 51, 113>>]>> \o @]
    [] f2 = "ent_comment" -> [x EXCEPT !.secs[1].ents[Len(x.secs[1].ents)].com = <<99, 52, 113>>]
    [] f2 = "ent_meta" -> [x EXCEPT !.secs[1].ents[Len(x.secs[1].ents)].meta = AddMeta(@, f, "ent", <<109, 51, 113>>)]
    [] f2 = "props" -> [x EXCEPT !.secs[1].ents[Len(x.secs[1].ents)].props = <<[n |-> <<112, 49, 113>>, v |-> Val(<<118, 54, 113>>)]>>]
    [] f2 = "no_id" -> [x EXCEPT !.secs[1].ents = <<Ent(<<>>, Val(<<118, 55, 113>>))>> \o @]
    [] f2 = "id2" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<107, 54, 113>>, <<107, 55, 113>>>>, Val(<<117, 49, 113>>))>> \o @]
    [] f2 = "id3" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<107, 56, 113>>, <<107, 57, 113>>, <<106, 49, 113>>>>, Val(<<117, 50, 113>>))>> \o @]
    [] f2 = "sel" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 50, 113>>>>, Sel(f))>> \o @]
    [] f2 = "str" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 51, 113>>>>, [t |-> "str", s |-> <<117, 51, 113>>])>> \o @]
    [] f2 = "markup" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 52, 113>>>>, Pat(<<Txt(<<117, 52, 113, 32>>), Mku(<<60, 98, 62>>, "open"), Txt(<<117, 53, 113>>), Mku(<<60, 47, 98, 62>>, "close"), Txt(<<32, 117, 54, 113>>)>>))>> \o @]
    [] f2 = "bare_markup" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 53, 113>>>>, Pat(<<Txt(<<117, 55, 113, 32>>), Mku(<<>>, "open"), Txt(<<117, 56, 113>>), Mku(<<>>, "close")>>))>> \o @]
    [] f2 = "exp" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 54, 113>>>>, Pat(<<Txt(<<117, 57, 113, 32>>), Exp(SrcText(f), f), Txt(<<32, 116, 49, 113>>)>>))>> \o @]
    [] f2 = "bare_exp" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 55, 113>>>>, Pat(<<Txt(<<116, 50, 113, 32>>), Exp(<<>>, f), Txt(<<32, 116, 51, 113>>)>>))>> \o @]
    [] f2 = "decl" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 56, 113>>>>, Local(f, <<>>))>> \o @]
    [] f2 = "local_fn" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<106, 57, 113>>>>, Local(f, <<110, 117, 109, 98, 101, 114>>))>> \o @]
    [] f2 = "sel_opt" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<104, 49, 113>>>>, [Sel(f) EXCEPT !.decl[1].e.opt = <<[n |-> <<115, 101, 108, 101, 99, 116>>, v |-> Lit(<<111, 114, 100, 105, 110, 97, 108>>)]>>])>> \o @]
    [] f2 = "tangled" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<104, 50, 113>>>>, Pat(<<Mku(<<>>, "open"), [Mku(<<>>, "open") EXCEPT !.name = <<105>>], Txt(<<116, 53, 113>>), Mku(<<>>, "close"), [Mku(<<>>, "close") EXCEPT !.name = <<105>>]>>))>> \o @]
    [] f2 = "open" -> [x EXCEPT !.secs[1].ents = <<Ent(<<<<104, 51, 113>>>>, Pat(<<Mku(<<>>, "open"), Txt(<<116, 54, 113>>)>>))>> \o @]
    [] f2 = "ent_group" -> [x EXCEPT !.secs = Append(@, Sec(<<<<33, 69, 78, 84, 73, 84, 89>>, <<115, 53, 113>>>>, <<Ent(<<<<104, 52, 113>>>>, Val(<<116, 55, 113>>))>>))]
Sorts == All_ \cup {"str", "sec_id2", "open"}
\* "sec_id" shows in every format with named sections, "standalone" only once
Feature == Sorts
Init == r \in {Base0(f) : f \in Fmts} /\ prev = r /\ fs = {} /\ n = 0
Next == n < MaxStep /\ (\E f2 \in Feature \ fs : r' = Add(r, f2) /\ fs' = fs \cup {f2}) /\ prev' = r /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Kinds == {IdWords(r), ValWords(r), PropWords(r), ComWords(r), MetaWords(r)}
Seen == \A f2 \in fs \cap All_ : Has(r, f2)
Monotone == \A t \in BOOLEAN : MustRefuse(prev, t) => MustRefuse(r, t)
TrimAsksLess == MustRefuse(r, TRUE) => MustRefuse(r, FALSE)
KeepWords == /\ IdWords(prev) \subseteq IdWords(r) /\ ValWords(prev) \subseteq ValWords(r) /\ PropWords(prev) \subseteq PropWords(r) /\ MetaWords(prev) \subseteq MetaWords(r)
             /\ (r.fmt # "xliff" => ComWords(prev) \subseteq ComWords(r))
\* identifiers and values, say, have no word in common
Apart == IdWords(r) \cap (ValWords(r) \cup ComWords(r) \cup PropWords(r)) = {} /\ ComWords(r) \cap (ValWords(r) \cup PropWords(r)) = {}
\* a new word for each feature, unless it is one without words
NewWord == n > 0 => \E W \in {1, 2, 3, 4, 5} :
  LET of(x) == CASE W = 1 -> IdWords(x) [] W = 2 -> ValWords(x) [] W = 3 -> PropWords(x) [] W = 4 -> ComWords(x) [] OTHER -> MetaWords(x) IN of(r) \ of(prev) # {} \/ Noted(r.fmt, Last(r.secs[1].ents))
Plain == ~MustRefuse(Base0(r.fmt), FALSE)
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([res |-> r, fs |-> fs]))
=============================================================================
