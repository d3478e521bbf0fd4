-------------------------------- MODULE Build --------------------------------
(* C04, C05: the files of a build: the messages of the source, localized     *)
(* where there is a localization; and the report of what is not.             *)
(* Resources as in Trim.                                                     *)
EXTENDS Trim
Fluent == "fluent"
Names(e) == {e.props[i].n : i \in 1..Len(e.props)}
IsTerm(id) == At(id[1], 1) = 45
\* messages with their sections, in order
Messages(r) == SelectSeq(Concat([i \in 1..Len(r.secs) |-> [k \in 1..Len(r.secs[i].ents) |-> [sec |-> r.secs[i].id, e |-> r.secs[i].ents[k]]]]), LAMBDA x : x.e.t = "ent")
FullId(x) == x.sec \o x.e.id
\* what is built of a source message: nothing, the source, or the localization with the attributes of the source
Localized(s, ms) == LET k == SelectLastInSeq(ms, LAMBDA y : FullId(y) = FullId(s)) IN IF k = 0 THEN <<>> ELSE <<ms[k].e>>
Choice(fmt, s, ms) ==
  LET l == Localized(s, ms) IN
  IF l = <<>> THEN IF fmt = Fluent THEN [k |-> "out", e |-> s.e] ELSE [k |-> "src", e |-> s.e]
  ELSE IF fmt # Fluent \/ IsTerm(l[1].id) THEN [k |-> "l10n", e |-> l[1]]
  ELSE IF Names(s.e) \subseteq Names(l[1]) THEN [k |-> "l10n", e |-> [l[1] EXCEPT !.props = SelectSeq(@, LAMBDA p : p.n \in Names(s.e))]]
  ELSE [k |-> "out", e |-> s.e]
Choices_(src, has, loc) == LET ss == Messages(src)  ms == IF has THEN Messages(loc) ELSE <<>> IN [i \in 1..Len(ss) |-> [sec |-> ss[i].sec, id |-> FullId(ss[i]), c |-> Choice(src.fmt, ss[i], ms)]]
\* the built messages without comments
\* the order of attributes has no meaning
PropsOf(e) == [e EXCEPT !.val = NormVal(@), !.props = {[n |-> @[i].n, v |-> NormVal(@[i].v)] : i \in 1..Len(@)}]
Bare(fmt, x) == [sec |-> x.sec, e |-> [Full(Entry(fmt, x.c.e)) EXCEPT !.com = <<>>]]
Built(src, has, loc) == LET cs == SelectSeq(Choices_(src, has, loc), LAMBDA x : x.c.k # "out") IN [i \in 1..Len(cs) |-> Bare(src.fmt, cs[i])]
Coverage(src, has, loc) == LET cs == Choices_(src, has, loc)  m == SelectSeq(cs, LAMBDA x : x.c.k # "l10n") IN [total |-> Len(cs), missing |-> [i \in 1..Len(m) |-> m[i].id]]
SecMeta(src, has, loc, s) == LET k == IF has THEN SelectLastInSeq(loc.secs, LAMBDA x : x.id = s.id) ELSE 0 IN Meta(src.fmt, IF k = 0 THEN s.meta ELSE loc.secs[k].meta)
Seen_(r) == LET ms == Messages(r) IN [i \in 1..Len(ms) |-> [sec |-> ms[i].sec, e |-> [Full(Entry(r.fmt, ms[i].e)) EXCEPT !.com = <<>>]]]
\* unused namespaces need not be declared
cXmlns == <<120, 109, 108, 110, 115>>
ResMeta(r) == IF r.fmt = "android" THEN SelectSeq(r.meta, LAMBDA m : ~StartsWith(m.k, cXmlns)) ELSE r.meta
NoComments(r) == IF r.fmt = "inc" THEN OnlyDirectives(r) ELSE NoComment(r)
FileVerdict(f) ==
  IF ~f.rec THEN If(f.out.k = (IF f.has THEN "l10n" ELSE "src") \/ f.out.k = "both", "copy")
  ELSE IF f.out.k # "res" THEN {"not_built"}
  ELSE LET o == f.out.res  w == Built(f.src, f.has, f.loc)  g == Seen_(o)  ids(x) == [i \in 1..Len(x) |-> [sec |-> x[i].sec, id |-> x[i].e.id]] IN
       If(o.fmt = f.src.fmt \/ Messages(f.src) = <<>>, "format")
       \cup (IF ids(g) # ids(w) THEN {"messages"} ELSE If([i \in 1..Len(g) |-> PropsOf(g[i].e)] = [i \in 1..Len(w) |-> PropsOf(w[i].e)], "entry"))
       \cup If(NoComments(o), "comment_left")
       \cup If(o.fmt \in {"xliff", "android", "gettext"} => ResMeta(o) = ResMeta(IF f.has THEN f.loc ELSE f.src), "metadata")
       \cup If(o.fmt = "xliff" => \A s \in Range(f.src.secs) : \E x \in Range(o.secs) : x.id = s.id /\ x.meta = SecMeta(f.src, f.has, f.loc, s), "section_metadata")
\* a report: the entries of files, by key
Put(rep, key, c) == [k \in DOMAIN rep \cup {key} |-> IF k = key THEN c ELSE rep[k]]
CoverOf(f) == IF f.rec THEN Coverage(f.src, f.has, f.loc) ELSE [total |-> 0, missing |-> <<>>]
AsReport(xs) == [k \in {x.key : x \in Range(xs)} |-> LET x == xs[SelectInSeq(xs, LAMBDA y : y.key = k)] IN [total |-> x.total, missing |-> x.missing]]
RECURSIVE After(_, _)
\* the report after building files one by one
After(rep, fs) == IF fs = <<>> THEN rep ELSE After(Put(rep, Head(fs).key, CoverOf(Head(fs))), Tail(fs))
(* op "build": all files; wanted: those asked for; report: what was reported.  op "files": one by one over an existing report *)
BuildVerdict(e) ==
  IF e.op = "idle" THEN {}
  ELSE If(e.ok, "failed")
       \cup (IF ~e.ok THEN {} ELSE UNION {FileVerdict(f) : f \in Range(e.files)})
       \cup If(e.inputs, "inputs_modified")
       \cup If(~e.ok \/ Range(e.targets) = {f.path : f \in Range(e.files)} \cup Range(e.reports), "files")
CoverageVerdict(e) ==
  IF e.op = "idle" THEN {}
  ELSE If(e.ok, "failed")
       \cup (IF ~e.ok THEN {}
             ELSE UNION {IF ~r.got THEN If(~e.asked, "no_report")
                         ELSE If(e.asked, "report_not_asked_for")
                              \cup If(Cardinality({x.key : x \in Range(r.rep)}) = Len(r.rep) /\ AsReport(r.rep) = After(AsReport(r.pre), SelectSeq(e.files, LAMBDA f : f.lc = r.lc)), "report")
                         : r \in Range(e.reps)})
=============================================================================
