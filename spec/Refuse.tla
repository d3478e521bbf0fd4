------------------------------- MODULE Refuse -------------------------------
(* C30: serializing is pure, and refuses what a format cannot express.       *)
(* Features are what a resource has that some formats cannot hold; Refused   *)
(* says which format must refuse which (the formats' documentation).  What   *)
(* is written holds every word of the resource: each word of an identifier,  *)
(* value, property, comment or metadata value is there when the text is      *)
(* parsed.  Strings are code points, but for tags of variants.                *)
EXTENDS Text
Letters == 97..122
cSource == <<115, 111, 117, 114, 99, 101>>
cNote == <<110, 111, 116, 101>>
cInfo == <<105, 110, 102, 111>>
cEntity == <<33, 69, 78, 84, 73, 84, 89>>
\* ------------------------------------------------------------------- words
\* a word is a lower case letter, digits, and a "q"
Words(s) ==
  FoldLeft(LAMBDA a, c :
      IF c = 113 /\ Len(a.cur) > 1 THEN [cur |-> <<>>, all |-> a.all \cup {Append(a.cur, c)}]
      ELSE IF c \in Letters THEN [a EXCEPT !.cur = <<c>>]
      ELSE IF c \in Digit /\ a.cur # <<>> THEN [a EXCEPT !.cur = Append(@, c)]
      ELSE [a EXCEPT !.cur = <<>>], [cur |-> <<>>, all |-> {}], s).all
AllWords(ss) == UNION {Words(ss[i]) : i \in 1..Len(ss)}
AttrOf(p) == LET i == SelectInSeq(p.attr, LAMBDA a : a.n = cSource /\ a.v.t = "lit") IN IF i = 0 THEN <<>> ELSE p.attr[i].v.s
HasSource(p) == \E i \in 1..Len(p.attr) : p.attr[i].n = cSource /\ p.attr[i].v.t = "lit"
PartWords(p) ==
  IF p.t = "txt" THEN Words(p.s)
  ELSE IF HasSource(p) THEN Words(AttrOf(p))
  ELSE IF p.t = "exp" THEN (IF p.arg.t \in {"var", "lit"} THEN Words(p.arg.s) ELSE {})
  ELSE Words(p.name) \cup UNION {Words(p.opt[i].v.s) : i \in 1..Len(p.opt)}
PatWords(ps) == UNION {PartWords(ps[i]) : i \in 1..Len(ps)}
MsgWords(m) == CASE m.t = "str" -> Words(m.s) [] m.t = "pat" -> PatWords(m.p) [] OTHER -> UNION {PatWords(m.var[i].p) : i \in 1..Len(m.var)}
Ents(r) == Concat([i \in 1..Len(r.secs) |-> r.secs[i].ents])
Real(r) == SelectSeq(Ents(r), LAMBDA e : e.t = "ent")
IdWords(r) == UNION {AllWords(r.secs[i].id) : i \in {j \in 1..Len(r.secs) : \E k \in 1..Len(r.secs[j].ents) : r.secs[j].ents[k].t = "ent"}} \cup LET es == Real(r) IN UNION {AllWords(es[i].id) : i \in 1..Len(es)}
ValWords(r) == LET es == Real(r) IN UNION {MsgWords(es[i].val) : i \in 1..Len(es)}
PropWords(r) == LET es == Real(r) IN UNION {UNION {Words(es[i].props[j].n) \cup MsgWords(es[i].props[j].v) : j \in 1..Len(es[i].props)} : i \in 1..Len(es)}
\* in XLIFF, the notes among the metadata of an entry are its comment
IsNote(k) == LET ps == Split(k, 47) IN \E i \in 1..Len(ps) : ps[i] = cNote \/ StartsWith(ps[i], cNote \o <<91>>)
Noted(fmt, e) == fmt = "xliff" /\ \E i \in 1..Len(e.meta) : IsNote(e.meta[i].k)
\* obsolete gettext entries hold no comments but those of translators
cObsolete == <<111, 98, 115, 111, 108, 101, 116, 101>>
cTranslator == <<116, 114, 97, 110, 115, 108, 97, 116, 111, 114, 45, 99, 111, 109, 109, 101, 110, 116, 115>>
cFalse == <<102, 97, 108, 115, 101>>
Obsolete(fmt, e) == fmt = "gettext" /\ LET i == SelectLastInSeq(e.meta, LAMBDA m : m.k = cObsolete) IN i > 0 /\ e.meta[i].v # cFalse
ComWords(r) ==
  Words(r.com) \cup UNION {Words(r.secs[i].com) : i \in 1..Len(r.secs)}
    \cup LET es == Ents(r) IN UNION {IF es[i].t = "ent" /\ (Noted(r.fmt, es[i]) \/ Obsolete(r.fmt, es[i])) THEN {} ELSE Words(es[i].com) : i \in 1..Len(es)}
MetaWords(r) ==
  LET es == Real(r)  of(m) == UNION {Words(m[i].v) : i \in 1..Len(m)} IN
  of(r.meta) \cup UNION {of(r.secs[i].meta) : i \in 1..Len(r.secs)} \cup UNION {of(IF Obsolete(r.fmt, es[i]) THEN SelectSeq(es[i].meta, LAMBDA m : m.k = cTranslator) ELSE es[i].meta) : i \in 1..Len(es)}
\* nor are they written without comments
Kept(trim, r) == [r EXCEPT !.secs = [i \in 1..Len(r.secs) |-> [r.secs[i] EXCEPT !.ents = SelectSeq(r.secs[i].ents, LAMBDA e : ~(trim /\ e.t = "ent" /\ Obsolete(r.fmt, e)))]]]
\* ---------------------------------------------------------------- features
PartsOf(m) == CASE m.t = "str" -> <<>> [] m.t = "pat" -> m.p [] OTHER -> Concat([i \in 1..Len(m.var) |-> m.var[i].p])
\* markup that is not properly nested; that of protected text has any name
cTranslate == <<116, 114, 97, 110, 115, 108, 97, 116, 101>>
Tangled(ps) ==
  LET name(p) == IF \E i \in 1..Len(p.attr) : p.attr[i].n = cTranslate THEN <<>> ELSE p.name
      z == FoldLeft(LAMBDA a, p :
             IF a.bad \/ p.t # "mku" \/ p.kind = "standalone" THEN a
             ELSE IF p.kind = "open" THEN [a EXCEPT !.st = Append(@, name(p))]
             ELSE IF a.st = <<>> THEN [a EXCEPT !.bad = TRUE]
             ELSE [st |-> SubSeq(a.st, 1, Len(a.st) - 1), bad |-> LET o == a.st[Len(a.st)] IN o # <<>> /\ name(p) # <<>> /\ o # name(p)], [st |-> <<>>, bad |-> FALSE], ps)
  IN z.bad \/ z.st # <<>>
PatternsOf(m) == CASE m.t = "str" -> <<>> [] m.t = "pat" -> <<m.p>> [] OTHER -> [i \in 1..Len(m.var) |-> m.var[i].p]
MsgHas(m, f) ==
  LET ps == PartsOf(m) IN
  CASE f = "sel" -> m.t = "sel"
    [] f = "decl" -> m.t = "pat" /\ m.decl # <<>>
    [] f = "markup" -> \E i \in 1..Len(ps) : ps[i].t = "mku"
    [] f = "bare_markup" -> \E i \in 1..Len(ps) : ps[i].t = "mku" /\ ~HasSource(ps[i])
    [] f = "exp" -> \E i \in 1..Len(ps) : ps[i].t = "exp"
    [] f = "bare_exp" -> \E i \in 1..Len(ps) : ps[i].t = "exp" /\ ~HasSource(ps[i])
    \* options of what a variant is selected by
    [] f = "sel_opt" -> m.t = "sel" /\ \E i \in 1..Len(m.decl) : m.decl[i].e.opt # <<>> /\ \E j \in 1..Len(m.sel) : m.sel[j] = m.decl[i].n
    \* an annotated declaration that a placeholder shows
    [] f = "local_fn" -> m.t = "pat" /\ \E i \in 1..Len(m.decl), j \in 1..Len(m.p) : m.decl[i].e.fn # <<>> /\ m.p[j].t = "exp" /\ m.p[j].arg.t = "var" /\ m.p[j].arg.s = m.decl[i].n
    [] f = "tangled" -> m.t # "sel" /\ LET qs == PatternsOf(m) IN \E i \in 1..Len(qs) : Tangled(qs[i])
MsgFeatures == {"sel", "decl", "markup", "bare_markup", "exp", "bare_exp", "sel_opt", "local_fn", "tangled"}
SomeEnt(r, P(_)) == LET es == Real(r) IN \E i \in 1..Len(es) : P(es[i])
SomeSec(r, P(_)) == \E i \in 1..Len(r.secs) : P(r.secs[i])
Has(r, f) ==
  CASE f = "res_comment" -> r.com # <<>>
    [] f = "res_meta" -> r.meta # <<>>
    [] f = "sec_comment" -> SomeSec(r, LAMBDA s : s.com # <<>>)
    [] f = "sec_meta" -> SomeSec(r, LAMBDA s : s.meta # <<>>)
    [] f = "sec_id" -> SomeSec(r, LAMBDA s : s.id # <<>>)
    [] f = "no_sec_id" -> SomeSec(r, LAMBDA s : s.id = <<>>)
    [] f = "standalone" -> LET es == Ents(r) IN \E i \in 1..Len(es) : es[i].t = "com" /\ es[i].com # <<>>
    [] f = "ent_comment" -> SomeEnt(r, LAMBDA e : e.com # <<>>)
    [] f = "ent_meta" -> SomeEnt(r, LAMBDA e : e.meta # <<>>)
    [] f = "props" -> SomeEnt(r, LAMBDA e : e.props # <<>>)
    [] f = "no_id" -> SomeEnt(r, LAMBDA e : e.id = <<>>)
    [] f = "id2" -> SomeEnt(r, LAMBDA e : Len(e.id) = 2)
    [] f = "id3" -> SomeEnt(r, LAMBDA e : Len(e.id) > 2)
    \* a section of Android entities with more to its name
    [] f = "ent_group" -> SomeSec(r, LAMBDA s : Len(s.id) > 1 /\ s.id[1] = cEntity)
    [] OTHER -> SomeEnt(r, LAMBDA e : MsgHas(e.val, f))
Comments == {"res_comment", "sec_comment", "standalone", "ent_comment"}
Metas == {"res_meta", "sec_meta", "ent_meta"}
NotText == {"sel", "markup", "exp"}
All_ == Comments \cup Metas \cup MsgFeatures \cup {"sec_id", "no_sec_id", "props", "no_id", "id2", "id3", "ent_group"}
Cannot(fmt) ==
  CASE fmt = "dtd" -> {"sec_meta", "ent_meta", "props"} \cup NotText
    [] fmt = "fluent" -> {"sec_id", "no_id", "id2", "id3", "sec_meta", "ent_meta", "markup"}
    [] fmt = "gettext" -> {"sec_comment", "sec_id", "sec_meta", "standalone", "props", "no_id", "id3", "markup", "exp", "sel_opt"}
    [] fmt = "inc" -> {"sec_id", "no_id", "id2", "id3", "props"} \cup Metas \cup NotText
    [] fmt = "ini" -> {"no_sec_id", "no_id", "props"} \cup Metas \cup NotText
    [] fmt = "plain_json" -> {"no_id", "props"} \cup Comments \cup Metas \cup NotText
    [] fmt = "properties" -> {"props", "sel", "bare_exp", "bare_markup"} \cup Metas
    [] fmt = "webext" -> {"sec_id", "no_id", "id2", "id3", "props", "res_comment", "sec_comment", "standalone", "sel", "markup", "local_fn"} \cup Metas
    [] fmt = "android" -> {"no_id", "id3", "props", "sec_meta", "ent_group", "decl", "sel_opt", "tangled"}
    [] fmt = "xliff" -> {"no_sec_id", "no_id", "id2", "id3", "props", "bare_exp", "decl", "sel_opt", "tangled"}
\* what depends on more than the feature
Maybe(fmt) ==
  CASE fmt = "dtd" -> {"no_id", "ent_group"} [] fmt = "properties" -> {"ent_group"} [] fmt = "fluent" -> {"res_meta", "decl", "local_fn", "sel_opt"} [] fmt = "webext" -> {"decl", "exp"} [] fmt = "android" -> {"sec_meta", "sec_id", "id2", "bare_exp"} [] fmt = "xliff" -> {"sel"} [] OTHER -> {}
\* of single messages, with nothing but patterns
CannotMsg(fmt) ==
  CASE fmt = "fluent" -> {"markup"} [] fmt = "properties" -> {"sel", "bare_exp", "bare_markup"} [] fmt = "webext" -> {"sel", "markup", "local_fn"}
    [] fmt = "android" -> {"sel", "decl", "tangled"} [] fmt = "xliff" -> {"sel", "decl", "bare_exp", "tangled"} [] fmt = "mf2" -> {}
    [] OTHER -> {"sel", "decl", "bare_exp", "bare_markup"}
MayRefuse(r) == \E f \in Maybe(r.fmt) : Has(r, f)
\* without comments, neither comments nor metadata are asked for
Asked(trim) == IF trim THEN All_ \ (Comments \cup Metas) ELSE All_
MustRefuse(r, trim) == \E f \in Cannot(r.fmt) \cap Asked(trim) : Has(r, f)
\* ---------------------------------------------------------------- verdicts
\* of a plain resource, nothing else is refused
If(c, n) == IF c THEN {} ELSE {n}
RefuseVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] e.op = "res" ->
         If(e.before = e.after /\ e.same, "modified")
         \cup If(\A i \in 2..Len(e.outs) : e.outs[i] = e.outs[1], "not_repeatable")
         \cup (LET o == e.outs[1] IN
               IF o.k = "err" THEN If(o.ve, "wrong_error") \cup If(~(e.plain /\ ~MayRefuse(e.before) /\ ~MustRefuse(e.before, e.trim)), "refused")
               ELSE If(~MustRefuse(e.before, e.trim), "not_refused")
                    \cup (IF e.back.k # "ok" THEN {"unreadable"}
                          ELSE LET p == e.back.res  r == Kept(e.trim, e.before)  notes == ComWords(p) \cup MetaWords(p) IN
                               If(IdWords(r) \subseteq IdWords(p), "lost_id") \cup If(ValWords(r) \subseteq ValWords(p), "lost_value")
                               \cup If(PropWords(r) \subseteq PropWords(p), "lost_property")
                               \cup (IF e.trim THEN {} ELSE If(ComWords(r) \subseteq notes, "lost_comment") \cup If(MetaWords(r) \subseteq notes, "lost_metadata"))))
    [] e.op = "msg" ->
         If(e.before = e.after /\ e.same, "modified")
         \cup If(e.outs[1] = e.outs[2], "not_repeatable")
         \cup (IF e.outs[1].k = "err" THEN If(e.outs[1].ve, "wrong_error")
               ELSE If(\A f \in CannotMsg(e.fmt) : ~MsgHas(e.before, f), "not_refused") \cup IF e.back.k # "ok" THEN {} ELSE If(MsgWords(e.before) \subseteq MsgWords(e.back.m), "lost_value"))
=============================================================================
