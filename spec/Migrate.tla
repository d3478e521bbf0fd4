------------------------------- MODULE Migrate -------------------------------
(* C01, C02, C03: migrations.  A migration adds entries to the resources of  *)
(* each locale: a map of paths to identifiers to functions.  Functions are   *)
(* records (what they give is fixed, or copied from entries of this or       *)
(* another resource).  All strings are code points.                          *)
EXTENDS Trim
None == [k |-> "none"]
cBang == <<33>>
cP == <<80>>
cY == <<121>>
cNumber == <<110, 117, 109, 98, 101, 114>>
NoMsg == [t |-> "pat", decl |-> <<>>, p |-> <<>>]
\* ---------------------------------------------------------------- look up
Prefix(id, n) == SubSeq(id, 1, n)
IsPrefix_(a, id) == Len(a) < Len(id) /\ Prefix(id, Len(a)) = a
Rest(id, n) == SubSeq(id, n + 1, Len(id))
\* the first entry of an identifier, which starts with that of its section
EntryAt(s, id) == IF ~IsPrefix_(s.id, id) THEN 0 ELSE SelectInSeq(s.ents, LAMBDA e : e.t = "ent" /\ e.id = Rest(id, Len(s.id)))
Lookup(r, id) == LET i == SelectInSeq(r.secs, LAMBDA s : EntryAt(s, id) > 0) IN IF i = 0 THEN <<>> ELSE <<r.secs[i].ents[EntryAt(r.secs[i], id)]>>
\* -------------------------------------------------------------- insertion
\* the sections for an identifier: of the longest identifier it starts with
Fits(r, id) == {i \in 1..Len(r.secs) : IsPrefix_(r.secs[i].id, id)}
Homes(r, id) == {i \in Fits(r, id) : \A j \in Fits(r, id) : Len(r.secs[j].id) <= Len(r.secs[i].id)}
Best(S, m) == CHOOSE i \in S : \A j \in S : IF m THEN j <= i ELSE i <= j
LastOf(s, ids) == SelectLastInSeq(s.ents, LAMBDA e : e.t = "ent" /\ s.id \o e.id \in ids)
InsertAt_(r, i, k, e) == [r EXCEPT !.secs[i].ents = SubSeq(@, 1, k) \o <<e>> \o SubSeq(@, k + 1, Len(@))]
\* <<resource, entry>>, or nothing without a section for it
Insert(r, e, ids) ==
  LET H == Homes(r, e.id)  M == {i \in H : LastOf(r.secs[i], ids) > 0} IN
  IF H = {} THEN <<>>
  ELSE LET i == IF M = {} THEN Best(H, FALSE) ELSE Best(M, TRUE)
           x == [e EXCEPT !.id = Rest(@, Len(r.secs[i].id))]
       IN <<InsertAt_(r, i, IF M = {} THEN Len(r.secs[i].ents) ELSE LastOf(r.secs[i], ids), x), x>>
\* -------------------------------------------------------------- functions
Rep(kind, p) ==
  CASE kind = "up" /\ p.t = "txt" -> [p EXCEPT !.s = @ \o cBang]
    [] kind = "lit" /\ p.t # "txt" -> [t |-> "txt", s |-> cP]
    [] kind = "drop" /\ p.t # "txt" -> [t |-> "txt", s |-> <<>>]
    [] kind = "var" /\ p.t = "exp" /\ p.arg.t = "var" -> [t |-> "exp", arg |-> [t |-> "var", s |-> cY], fn |-> <<>>, opt |-> <<>>, attr |-> <<>>]
    [] kind = "mut" /\ p.t = "exp" /\ p.arg.t = "var" -> [p EXCEPT !.arg.s = cY]
    [] OTHER -> p
RepP(kind, ps) == [i \in 1..Len(ps) |-> Rep(kind, ps[i])]
RepM(kind, m) == IF m.t = "pat" THEN [m EXCEPT !.p = RepP(kind, @)] ELSE [m EXCEPT !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = RepP(kind, @)]]]
RepE(kind, e) == [e EXCEPT !.val = RepM(kind, @), !.props = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = RepM(kind, @)]]]
\* all catch-all keys are the same
SameKeys(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].t = b[i].t /\ (a[i].t = "any" \/ a[i].s = b[i].s)
\* the pattern of a variant, or else of the default one
VariantOf(m, var) ==
  IF m.t = "pat" THEN <<m.p>>
  ELSE LET i == IF var = <<>> THEN 0 ELSE SelectInSeq(m.var, LAMBDA v : SameKeys(v.k, var[1]))
           d == SelectInSeq(m.var, LAMBDA v : \A k \in Range(v.k) : k.t = "any")
       IN IF i > 0 THEN <<m.var[i].p>> ELSE IF d > 0 THEN <<m.var[d].p>> ELSE <<>>
MessageOf(e, prop) == IF prop = <<>> THEN <<e.val>> ELSE LET i == SelectLastInSeq(e.props, LAMBDA p : p.n = prop[1]) IN IF i = 0 THEN <<>> ELSE <<e.props[i].v>>
\* the pattern of an entry, its default if there is none, or else the end of the function
PatternOf(r, id, prop, var, dflt) ==
  LET e == Lookup(r, id)  m == IF e = <<>> THEN <<>> ELSE MessageOf(e[1], prop) IN
  IF m = <<>> THEN dflt ELSE VariantOf(m[1], var)
Pat(p) == [t |-> "pat", decl |-> <<>>, p |-> p]
Bare(m) == [t |-> "ent", id |-> <<>>, val |-> m, props |-> <<>>, com |-> <<>>, meta |-> <<>>]
Some(ent, e, ids) == [k |-> "some", ent |-> ent, e |-> e, ids |-> ids]
Copy(f, r) ==
  LET e == Lookup(r, f.id) IN
  IF e = <<>> THEN None
  ELSE IF f.var = <<>>
       THEN IF f.prop = <<>> THEN Some(~f.vo, IF f.vo THEN Bare(RepM(f.rep, e[1].val)) ELSE RepE(f.rep, e[1]), <<<<f.id>>>>)
            ELSE LET m == MessageOf(e[1], f.prop) IN IF m = <<>> THEN None ELSE Some(FALSE, Bare(RepM(f.rep, m[1])), <<<<f.id>>>>)
  ELSE LET p == PatternOf(r, f.id, f.prop, f.var, <<>>) IN IF p = <<>> THEN None ELSE Some(FALSE, Bare(Pat(RepP(f.rep, p[1]))), <<<<f.id>>>>)
Plural(name, vs) == [t |-> "sel", decl |-> <<[n |-> name, e |-> [t |-> "exp", arg |-> [t |-> "var", s |-> name], fn |-> cNumber, opt |-> <<>>, attr |-> <<>>]]>>, sel |-> <<name>>, var |-> vs]
\* a plural of the patterns of entries; one that is missing is as the other
MakePlural(f, r) ==
  LET o == PatternOf(r, f.other, <<>>, <<>>, <<>>) IN
  IF o = <<>> THEN [k |-> "stop"]
  ELSE LET one == PatternOf(r, f.one, <<>>, <<>>, o) IN
       IF one = <<>> THEN [k |-> "stop"]
       ELSE Some(FALSE, Bare(Plural(f.name, <<[k |-> <<[t |-> "key", s |-> <<111, 110, 101>>]>>, p |-> one[1]], [k |-> <<[t |-> "any", s |-> <<61, 111, 116, 104, 101, 114>>]>>, p |-> o[1]]>>)), <<<<f.one, f.other>>>>)
\* R(ref): the resource of another path, if there is one
Basic(f, own, R(_)) ==
  CASE f.t = "none" -> None
    [] f.t = "stop" -> [k |-> "stop"]
    [] f.t = "msg" -> Some(FALSE, Bare(IF f.v.t = "str" THEN Pat(<<[t |-> "txt", s |-> f.v.s]>>) ELSE f.v), f.after)
    [] f.t = "ent" -> Some(TRUE, f.e, f.after)
    [] f.t = "plural" -> MakePlural(f, own)
    [] OTHER -> LET r == IF f.ref = <<>> THEN <<own>> ELSE R(f.ref[1]) IN IF r = <<>> THEN None ELSE Copy(f, r[1])
Compose(f, own, R(_)) ==
  LET v == IF f.value = <<>> THEN None ELSE Basic(f.value[1], own, R)
      ps == [i \in 1..Len(f.props) |-> Basic(f.props[i].f, own, R)]
      have == SelectSeq([i \in 1..Len(ps) |-> [i |-> i, r |-> ps[i]]], LAMBDA x : x.r.k = "some")
      idsOf(x) == IF x.k = "some" /\ x.ids # <<>> THEN x.ids[1] ELSE <<>>
      ids == idsOf(v) \o Concat([i \in 1..Len(ps) |-> idsOf(ps[i])])
  IN IF v.k = "stop" THEN v
     ELSE IF v.k = "none" /\ f.value # <<>> /\ ~f.partial THEN None
     ELSE IF \E i \in 1..Len(ps) : ps[i].k = "stop" /\ (f.partial \/ \A j \in 1..(i - 1) : ps[j].k # "none") THEN [k |-> "stop"]
     ELSE IF ~f.partial /\ Len(have) < Len(ps) THEN None
     ELSE IF v.k = "none" /\ have = <<>> THEN None
     ELSE Some(TRUE, [t |-> "ent", id |-> <<>>, val |-> IF v.k = "some" THEN v.e.val ELSE NoMsg,
                      props |-> [i \in 1..Len(have) |-> [n |-> f.props[have[i].i].n, v |-> have[i].r.e.val]],
                      com |-> IF f.com # <<>> THEN f.com[1] ELSE IF v.k = "some" /\ v.ent THEN v.e.com ELSE <<>>,
                      meta |-> IF f.meta # <<>> THEN f.meta[1] ELSE IF v.k = "some" /\ v.ent THEN v.e.meta ELSE <<>>], <<ids>>)
Run(f, own, R(_)) == IF f.t = "entry" THEN Compose(f, own, R) ELSE Basic(f, own, R)
\* -------------------------------------------------------------- migration
\* st: the resource, what was added to it, and the identifiers before this one
Create(st, id, f, R(_)) ==
  LET next(r, a) == [r |-> r, a |-> a, prev |-> st.prev \cup {id}]
      x == Run(f, st.r, R)
      ids == IF x.ids # <<>> THEN Range(x.ids[1]) ELSE IF x.ent THEN {x.e.id} ELSE {id}
      n == Insert(st.r, [x.e EXCEPT !.id = id], ids \cup st.prev)
  IN IF Lookup(st.r, id) # <<>> \/ x.k # "some" THEN next(st.r, st.a)
     ELSE IF n = <<>> THEN next(st.r, st.a)
     ELSE next(n[1], Append(st.a, [id |-> id, e |-> n[2]]))
\* as it is read back
\* an empty literal stands for an empty value
EmptyLit == [t |-> "exp", arg |-> [t |-> "lit", s |-> <<>>], fn |-> <<>>, opt |-> <<>>, attr |-> <<>>]
NoLit(ps) == IF ps = <<EmptyLit>> THEN <<>> ELSE ps
NormM(m) == LET n == NormVal(m) IN IF n.t = "pat" THEN [n EXCEPT !.p = NoLit(@)] ELSE [n EXCEPT !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = NoLit(@)]]]
NormE(e) == IF e.t = "com" THEN e ELSE [e EXCEPT !.val = NormM(@), !.props = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = NormM(@)]]]
Written(r) == [r EXCEPT !.secs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ents = [k \in 1..Len(@) |-> NormE(@[k])]]]]
\* what a missing file starts from
NeedsRef == {"ini", "xliff"}
Start(ref) == IF ref.res.fmt \in NeedsRef THEN [ref.res EXCEPT !.secs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ents = <<>>]]]
              ELSE [fmt |-> ref.res.fmt, com |-> <<>>, meta |-> <<>>, secs |-> <<[id |-> <<>>, com |-> <<>>, meta |-> <<>>, ents |-> <<>>]>>]
\* files: records of locale, path, state ("missing", "bad", "res") and resource
FileAt(fs, lc, p) == SelectInSeq(fs, LAMBDA f : f.lc = lc /\ f.path = p)
ResOf(fs, lc, p) == LET i == FileAt(fs, lc, p) IN IF i = 0 \/ fs[i].st # "res" THEN <<>> ELSE <<fs[i].res>>
\* one path for one locale: <<files, additions>>
Migrate1(st, m, lc, refs) ==
  LET i == FileAt(st.fs, lc, m.path)
      ref == refs[SelectInSeq(refs, LAMBDA x : x.path = m.path)]
      f == st.fs[i]
      skip == f.st = "bad" \/ (f.st = "missing" /\ ref.need /\ ref.st # "res")
      base == IF f.st = "res" THEN f.res ELSE Start(ref)
      O(p, now) == IF p = m.path THEN <<now>> ELSE ResOf(st.fs, lc, p)
      out == FoldLeft(LAMBDA s, x : Create(s, x.id, x.f, LAMBDA p : O(p, s.r)), [r |-> base, a |-> <<>>, prev |-> {}], m.ents)
  IN IF skip THEN st
     ELSE IF out.a = <<>> THEN st
     ELSE [fs |-> [st.fs EXCEPT ![i].st = "res", ![i].res = Written(out.r)],
           ret |-> Append(st.ret, [lc |-> lc, path |-> m.path, ents |-> [k \in 1..Len(out.a) |-> out.a[k].e], ids |-> [k \in 1..Len(out.a) |-> out.a[k].id], raw |-> out.r])]
\* a run over all
Apply(map, fs, refs) ==
  FoldLeft(LAMBDA st, m : FoldLeft(LAMBDA s, lc : Migrate1(s, m, lc, refs), st, m.lcs), [fs |-> fs, ret |-> <<>>], map)
\* ---------------------------------------------------------------- verdicts
\* no file can hold it
HasMarkup(m) == IF m.t = "sel" THEN \E v \in Range(m.var) : \E p \in Range(v.p) : p.t = "mku" ELSE m.t = "pat" /\ \E p \in Range(m.p) : p.t = "mku"
CannotWrite(x) == x.raw.fmt \notin {"android", "xliff"} /\ \E e \in Range(x.ents) : HasMarkup(e.val) \/ \E p \in Range(e.props) : HasMarkup(p.v)
\* entries in order with their sections; the order of properties has no meaning
PropsOf(e) == IF e.t = "com" THEN e ELSE LET x == NormE(e) IN [x EXCEPT !.props = Range(@)]
Items(r) == Concat([i \in 1..Len(r.secs) |-> [k \in 1..Len(r.secs[i].ents) |-> [sec |-> r.secs[i].id, com |-> r.secs[i].com, e |-> PropsOf(r.secs[i].ents[k])]]])
\* unused namespaces need not be declared
cXmlns == <<120, 109, 108, 110, 115>>
Head_(r) == [com |-> r.com, meta |-> IF r.fmt = "android" THEN SelectSeq(r.meta, LAMBDA m : ~StartsWith(m.k, cXmlns)) ELSE r.meta, fmt |-> r.fmt, secs |-> LET n == SelectSeq(r.secs, LAMBDA s : s.id # <<>>) IN [i \in 1..Len(n) |-> [id |-> n[i].id, com |-> n[i].com, meta |-> n[i].meta]]]
IdOf(x) == IF x.e.t = "com" THEN <<>> ELSE <<x.sec \o x.e.id>>
ItemIds(r) == {IdOf(x) : x \in Range(Items(r))} \ {<<>>}
Same(a, b) == a.st = b.st /\ (a.st = "res" => Items(a.res) = Items(b.res) /\ Head_(a.res) = Head_(b.res))
\* of one file: was, is, and ought to be
KeptVerdict(was, is, want) ==
  IF was.st # "res" THEN If(was.st = "missing" \/ is.st = was.st, "overwritten")
  ELSE IF is.st # "res" THEN {"lost"}
  ELSE LET old == ItemIds(was.res)  new(r) == SelectSeq(Items(r), LAMBDA x : IdOf(x) # <<>> /\ IdOf(x) \notin old) IN
       If(SelectSeq(Items(is.res), LAMBDA x : IdOf(x) = <<>> \/ IdOf(x) \in old) = Items(was.res), "entries_changed")
       \cup If(Head_(was.res) = Head_(is.res), "head_changed")
       \cup If(Len(new(is.res)) = Len(new(want.res)) /\ {[i |-> IdOf(x), e |-> x.e] : x \in Range(new(is.res))} = {[i |-> IdOf(x), e |-> x.e] : x \in Range(new(want.res))}, "additions")
RunVerdict(before, run, map, refs, V(_, _, _)) ==
  LET a == Apply(map, before, refs)  n == 1..Len(before) IN
  IF \E x \in Range(a.ret) : CannotWrite(x)
  THEN If(run.exc, "not_refused") \cup If(\A i \in n : Same(run.files[i], before[i]) \/ (~run.dry /\ Same(run.files[i], a.fs[i])), "damaged")
  ELSE If(~run.exc, "failed") \cup (IF run.exc THEN {} ELSE V(before, run, a))
Before(e, i) == IF i = 1 THEN e.files ELSE e.runs[i - 1].files
C01Run(before, run, a) == UNION {IF run.dry THEN If(Same(before[i], run.files[i]), "dry_run_changes") ELSE KeptVerdict(before[i], run.files[i], a.fs[i]) : i \in 1..Len(before)}
RetOf(ret) == {[lc |-> x.lc, path |-> x.path, ents |-> [k \in 1..Len(x.ents) |-> PropsOf(x.ents[k])]] : x \in Range(ret)}
\* standalone comments
Loose(r) == SelectSeq(Items(r), LAMBDA x : IdOf(x) = <<>>)
C02Run(before, run, a) ==
  If(RetOf(run.ret) = RetOf(a.ret) /\ Len(run.ret) = Cardinality(RetOf(a.ret)), "returned")
  \cup If(Range(run.touched) = (IF run.dry THEN {} ELSE {[lc |-> x.lc, path |-> x.path] : x \in Range(a.ret)}), "files_written")
  \cup If(~run.stray, "other_files")
  \cup UNION {LET w == before[i] f == run.files[i] IN IF w.st = "missing" /\ f.st = "res" /\ a.fs[i].st = "res" THEN If(Head_(f.res) = Head_(a.fs[i].res) /\ ItemIds(f.res) = ItemIds(a.fs[i].res) /\ Loose(f.res) = Loose(a.fs[i].res), "created") ELSE {} : i \in 1..Len(before)}
C03Run(before, run, a) == IF run.dry THEN {} ELSE UNION {If(Same(run.files[i], a.fs[i]), "result") : i \in 1..Len(before)}
\* functions and insertion, on resources as such
SameRes(a, b) == a.secs = b.secs
OutcomeOf(x) == IF x.k # "some" THEN x.k ELSE "some"
DirectVerdict(e) ==
  CASE e.op = "insert" -> LET n == Insert(e.res, e.ent, Range(e.ids)) IN IF n = <<>> THEN If(e.out.k = "stop", "inserted") ELSE If(e.out.k = "ok" /\ SameRes(e.out.res, n[1]), "inserted")
    [] e.op = "lookup" -> LET x == Lookup(e.res, e.id) IN If(e.out.ent = x, "entry") \cup If(e.out.pat = PatternOf(e.res, e.id, e.prop, e.var, e.dflt), "pattern")
    [] e.op = "fn" -> LET R(ref) == LET i == SelectInSeq(e.others, LAMBDA o : o.path = ref) IN IF i = 0 THEN <<>> ELSE <<e.others[i].res>>
                          x == Run(e.f, e.res, R) IN
                      If(OutcomeOf(x) = e.out.k, "outcome")
                      \cup (IF x.k # "some" \/ e.out.k # "some" THEN {}
                            ELSE If(e.out.ent = x.ent /\ (IF x.ent THEN [e.out.e EXCEPT !.id = <<>>] = [x.e EXCEPT !.id = <<>>] ELSE e.out.e.val = x.e.val), "value")
                                 \cup If((x.ids = <<>>) = (e.out.ids = <<>>) /\ (x.ids # <<>> => Range(x.ids[1]) = Range(e.out.ids[1])), "source_ids"))
                      \cup If(~e.out.changed, "source_changed") \cup If(~e.out.alias, "aliased")
    [] e.op = "plural" -> If(e.m = Plural(e.name, e.vs), "plural") \cup If(~e.alias, "aliased")
Runs(e, V(_, _, _)) == UNION {RunVerdict(Before(e, i), e.runs[i], e.map, e.refs, V) : i \in 1..Len(e.runs)}
C01Verdict(e) == IF e.op = "idle" THEN {} ELSE Runs(e, C01Run)
C02Verdict(e) == IF e.op = "idle" THEN {} ELSE Runs(e, C02Run)
C03Verdict(e) == IF e.op = "idle" THEN {} ELSE IF e.op = "apply" THEN Runs(e, C03Run) ELSE DirectVerdict(e)
=============================================================================
