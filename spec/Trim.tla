-------------------------------- MODULE Trim --------------------------------
(* C29: a resource without its comments.  All strings are code points, but   *)
(* for tags of variants of records.  What counts as comment, by format:      *)
(* comments, standalone comments and metadata that the format holds in       *)
(* comments or not at all; for webext the examples of placeholders; for      *)
(* gettext obsolete entries; in .inc files all but directives.               *)
EXTENDS Text
KeepsResMeta == {"dtd", "gettext", "android", "xliff"}
nNote == <<110, 111, 116, 101>>
cPluralKey == <<112, 108, 117, 114, 97, 108>>
cObsKey == <<111, 98, 115, 111, 108, 101, 116, 101>>
cFalse == <<102, 97, 108, 115, 101>>
cExample == <<101, 120, 97, 109, 112, 108, 101>>
cDefine == <<35, 100, 101, 102, 105, 110, 101>>
\* an XPath of XML metadata with a note in it; XML comments of metadata stay
OfNote(key) == LET ps == Split(key, 47) IN \E i \in 1..Len(ps) :
  LET b == SelectInSeq(ps[i], LAMBDA c : c = 91) p == IF b = 0 THEN ps[i] ELSE SubSeq(ps[i], 1, b - 1) IN p = nNote
Meta(fmt, m) ==
  CASE fmt = "android" -> m
    [] fmt = "xliff" -> SelectSeq(m, LAMBDA x : ~OfNote(x.k))
    [] fmt = "gettext" -> SelectSeq(m, LAMBDA x : x.k = cPluralKey)
    [] OTHER -> <<>>
Lines(s) == Split(s, 10)
\* a directive, not a definition
Directive(l) == At(l, 1) = 35 /\ At(l, 2) # 32 /\ ~StartsWith(l, Append(cDefine, 32))
Com(fmt, c) == IF fmt # "inc" THEN <<>> ELSE JoinWith(SelectSeq(Lines(c), Directive), <<10>>)
Obsolete(e) == LET k == SelectLastInSeq(e.meta, LAMBDA m : m.k = cObsKey) IN k > 0 /\ e.meta[k].v # cFalse
Val(fmt, v) ==
  IF fmt # "webext" \/ v.t # "pat" THEN v
  ELSE [v EXCEPT !.decl = [i \in 1..Len(v.decl) |-> IF v.decl[i].e.t = "exp" THEN [v.decl[i] EXCEPT !.e.attr = SelectSeq(@, LAMBDA a : a.n # cExample)] ELSE v.decl[i]]]
Kept(fmt, e) == IF e.t = "com" THEN Com(fmt, e.com) # <<>> ELSE fmt # "gettext" \/ ~Obsolete(e)
Entry(fmt, e) == IF e.t = "com" THEN [e EXCEPT !.com = Com(fmt, @)] ELSE [e EXCEPT !.com = Com(fmt, @), !.meta = Meta(fmt, @), !.val = Val(fmt, @)]
Sec(fmt, s) == [s EXCEPT !.com = Com(fmt, @), !.meta = IF fmt \in {"xliff", "android"} THEN Meta(fmt, @) ELSE <<>>,
                         !.ents = LET es == SelectSeq(@, LAMBDA e : Kept(fmt, e)) IN [i \in 1..Len(es) |-> Entry(fmt, es[i])]]
Trim(r) == [r EXCEPT !.com = Com(r.fmt, @), !.meta = IF r.fmt \in KeepsResMeta THEN @ ELSE <<>>, !.secs = [i \in 1..Len(@) |-> Sec(r.fmt, @[i])]]
\* the same in order, wherever the borders of sections are
\* an element of a note only may be left empty
Full(e) == IF e.t = "ent" THEN [e EXCEPT !.meta = SelectSeq(@, LAMBDA m : m.v # <<>>)] ELSE e
Flat(r) == Concat([i \in 1..Len(r.secs) |-> [k \in 1..Len(r.secs[i].ents) |-> [sec |-> r.secs[i].id, e |-> Full(r.secs[i].ents[k])]]])
NoComment(r) == r.com = <<>> /\ \A i \in 1..Len(r.secs) : r.secs[i].com = <<>> /\ \A k \in 1..Len(r.secs[i].ents) : r.secs[i].ents[k].t = "ent" /\ r.secs[i].ents[k].com = <<>>
OnlyDirectives(r) == \A i \in 1..Len(r.secs) : \A k \in 1..Len(r.secs[i].ents) : All(Lines(r.secs[i].ents[k].com), LAMBDA l : l = <<>> \/ Directive(l))
NotesOf(m) == \E i \in 1..Len(m) : OfNote(m[i].k)
NoNotes(r) == \A i \in 1..Len(r.secs) : ~NotesOf(r.secs[i].meta) /\ \A k \in 1..Len(r.secs[i].ents) : r.secs[i].ents[k].t = "ent" => ~NotesOf(r.secs[i].ents[k].meta)
\* identifiers and values, with identifiers as the format has them
Dot == <<46>>
Id(fmt, sec, e) ==
  CASE fmt \in {"dtd", "properties"} -> <<JoinWith(sec \o e.id, Dot)>>
    [] fmt = "ini" -> <<JoinWith(sec, Dot), JoinWith(e.id, Dot)>>
    [] OTHER -> sec \o e.id
Merge(p) == FoldLeft(LAMBDA a, x : IF x.t = "txt" /\ x.s = <<>> THEN a
                                   ELSE IF x.t = "txt" /\ a # <<>> /\ a[Len(a)].t = "txt" THEN [a EXCEPT ![Len(a)].s = @ \o x.s] ELSE Append(a, x), <<>>, p)
NormVal(v) == CASE v.t = "str" -> [t |-> "pat", decl |-> <<>>, p |-> Merge(<<[t |-> "txt", s |-> v.s]>>)] [] v.t = "pat" -> [v EXCEPT !.p = Merge(@)]
                [] OTHER -> [v EXCEPT !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = Merge(@)]]]
Content(fmt, r) == LET es == SelectSeq(Flat(r), LAMBDA x : x.e.t = "ent") IN [i \in 1..Len(es) |-> [id |-> Id(fmt, es[i].sec, es[i].e), val |-> NormVal(es[i].e.val), props |-> {[n |-> es[i].e.props[j].n, v |-> NormVal(es[i].e.props[j].v)] : j \in 1..Len(es[i].e.props)}]]
If(c, n) == IF c THEN {} ELSE {n}
TrimVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] OTHER ->
         If(Trim(e.res) = e.bare, "machinery")
         \cup If(e.t.ve, "wrong_error")
         \cup (IF ~e.b.ok THEN {} ELSE If(e.t.ok, "refused"))
         \cup (IF ~e.b.ok \/ ~e.t.ok THEN {}
               ELSE If(IF e.res.fmt = "inc" THEN OnlyDirectives(e.t.back) ELSE NoComment(e.t.back), "comment_left")
                    \cup If(e.res.fmt = "xliff" => NoNotes(e.t.back), "note_left")
                    \cup If(Flat(e.t.back) = Flat(e.b.back) /\ e.t.back.meta = e.b.back.meta, "not_as_without_comments")
                    \cup If(e.plain => Content(e.res.fmt, e.t.back) = Content(e.res.fmt, e.bare), "content"))
=============================================================================
