------------------------------ MODULE Gettext ------------------------------
(* C18: PO files on code points: lines, fields, entries, header.             *)
(* Texts outside the grammar of comments, msgctxt, msgid, msgid_plural,      *)
(* msgstr and their continuations (WellFormed fails) are not constrained.    *)
EXTENDS Text
NL == 10
Quote == 34
Backslash == 92
Hash == 35
Lines(s) ==
  LET r == FoldLeft(LAMBDA st, i : IF s[i] = 10 /\ i > 1 /\ s[i - 1] = 13 THEN st
                      ELSE IF s[i] \in {10, 13} THEN [done |-> Append(st.done, st.cur), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, s[i])],
                    [done |-> <<>>, cur |-> <<>>], [i \in 1..Len(s) |-> i])
  IN Append(r.done, r.cur)
LineBreaks == {10, 11, 12, 13, 28, 29, 30, 133, 8232, 8233}
PyLines(s) == \* without a final empty line
  LET r == FoldLeft(LAMBDA st, i : IF s[i] = 10 /\ i > 1 /\ s[i - 1] = 13 THEN st
                      ELSE IF s[i] \in LineBreaks THEN [done |-> Append(st.done, st.cur), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, s[i])],
                    [done |-> <<>>, cur |-> <<>>], [i \in 1..Len(s) |-> i])
  IN IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)
Words(s) == \* split at runs of white space
  LET r == FoldLeft(LAMBDA st, c : IF c \in PyWhite THEN [done |-> IF st.cur = <<>> THEN st.done ELSE Append(st.done, st.cur), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, c)],
                    [done |-> <<>>, cur |-> <<>>], s)
  IN IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)
cCtxt == <<109, 115, 103, 99, 116, 120, 116>>
cId == <<109, 115, 103, 105, 100>>
cPlural == <<109, 115, 103, 105, 100, 95, 112, 108, 117, 114, 97, 108>>
cStr == <<109, 115, 103, 115, 116, 114>>
Keyword(w) == CASE w = cCtxt -> "ct" [] w = cId -> "mi" [] w = cPlural -> "mp" [] w = cStr -> "ms" [] OTHER -> ""
\* the escapes of a quoted string; others stand for themselves
Escapes == [c \in {110, 116, 114, 118, 98, 102, 92, 34} |-> CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 118 -> 11 [] c = 98 -> 8 [] c = 102 -> 12 [] OTHER -> c]
Scan(s) == \* the content of a string, as [ok, val]; ok unless a quote is not escaped or a backslash escapes the end
  LET r == FoldLeft(LAMBDA st, c :
             IF st.esc THEN [st EXCEPT !.esc = FALSE, !.val = IF c \in DOMAIN Escapes THEN Append(@, Escapes[c]) ELSE @ \o <<Backslash, c>>]
             ELSE IF c = Backslash THEN [st EXCEPT !.esc = TRUE]
             ELSE IF c = Quote THEN [st EXCEPT !.ok = FALSE]
             ELSE [st EXCEPT !.val = Append(@, c)], [ok |-> TRUE, esc |-> FALSE, val |-> <<>>], s)
  IN [ok |-> r.ok /\ ~r.esc, val |-> r.val]
Str(s) == \* a quoted string
  IF Len(s) < 2 \/ s[1] # Quote \/ Last(s) # Quote THEN [ok |-> FALSE, val |-> <<>>] ELSE Scan(SubSeq(s, 2, Len(s) - 1))
Bad == [k |-> "bad"]
Field(k, rest) == LET v == Str(TrimLeft(rest, PyWhite)) IN IF v.ok THEN [k |-> k, val |-> v.val] ELSE Bad
Obsolete(l) == LET ws == Words(l) IN Len(ws) > 1 /\ ws[1] = <<Hash, 126>>
Line(line) == \* a stripped line
  LET obs == Obsolete(line)
      l == IF obs THEN Strip(From(line, 4)) ELSE line
      ws == Words(l)
  IN IF line = <<>> THEN [k |-> "skip"]
     ELSE IF Words(line)[1] = <<Hash, 126, 124>> THEN [k |-> "skip"]
     ELSE LET w == ws[1] IN
       CASE Len(ws) > 1 /\ Keyword(w) # "" -> LET f == Field(Keyword(w), From(l, Len(w) + 1)) IN IF f.k = "bad" THEN f ELSE f @@ [obs |-> obs]
         [] l[1] = Quote -> Field("mc", l)
         [] StartsWith(l, cStr \o <<91>>) ->
              IF At(l, 8) \in Digit /\ At(l, 9) = 93 THEN LET f == Field("mx", From(l, 10)) IN IF f.k = "bad" THEN f ELSE f @@ [idx |-> l[8] - 48] ELSE Bad
         [] obs -> Bad
         [] w = <<Hash, 58>> -> IF Len(ws) = 1 THEN [k |-> "skip"] ELSE [k |-> "oc", refs |-> Tail(ws)]
         [] w = <<Hash, 44>> -> IF Len(ws) = 1 THEN [k |-> "skip"] ELSE [k |-> "fl", flags |-> LET f == Split(From(l, 4), 44) IN [i \in 1..Len(f) |-> Strip(f[i])]]
         [] w = <<Hash, 46>> -> IF Len(ws) = 1 THEN [k |-> "skip"] ELSE [k |-> "gc", com |-> From(l, 4)]
         [] w = <<Hash>> -> [k |-> "tc", head |-> From(l, 3), com |-> IF At(l, 2) = 32 THEN From(l, 3) ELSE From(l, 2)]
         [] w = <<Hash, 124>> -> LET r == TrimLeft(From(l, 3), PyWhite) IN
              IF At(r, 1) = Quote /\ Str(r).ok THEN [k |-> "pc"]
              ELSE IF Len(ws) > 2 /\ Keyword(ws[2]) \in {"ct", "mi", "mp"} /\ Str(TrimLeft(From(r, Len(ws[2]) + 1), PyWhite)).ok THEN [k |-> "pp"] ELSE Bad
         [] OTHER -> Bad
JoinNL(a, b) == IF a = <<>> THEN b ELSE a \o <<NL>> \o b
None == [has |-> FALSE, val |-> <<>>]
E0 == [ctx |-> None, id |-> <<>>, plural |-> <<>>, str |-> <<>>, strs |-> <<>>, obs |-> FALSE, com |-> <<>>, tcom |-> <<>>, refs |-> <<>>, flags |-> <<>>]
S0 == [ok |-> TRUE, st |-> "st", header |-> <<>>, done |-> <<>>, cur |-> E0, idx |-> 0]
Fresh(s) == IF s.st \in {"ms", "mx"} THEN [s EXCEPT !.done = Append(@, s.cur), !.cur = E0] ELSE s
Free == {"st", "cm", "pp", "ms", "mx"}   \* states in which an entry may begin or have comments
SetPlural(strs, i, v) == LET k == SelectInSeq(strs, LAMBDA p : p.i = i) IN IF k = 0 THEN Append(strs, [i |-> i, v |-> v]) ELSE [strs EXCEPT ![k].v = v]
AddPlural(strs, i, v) == LET k == SelectInSeq(strs, LAMBDA p : p.i = i) IN [strs EXCEPT ![k].v = @ \o v]
Step(s, x) ==
  CASE x.k = "skip" -> s
    [] x.k = "tc" /\ s.st = "st" -> [s EXCEPT !.header = JoinNL(@, x.head)]
    [] x.k = "tc" /\ s.st \in Free \ {"st"} -> LET f == Fresh(s) IN [f EXCEPT !.st = "cm", !.cur.tcom = JoinNL(@, x.com)]
    [] x.k = "gc" /\ s.st \in Free -> LET f == Fresh(s) IN [f EXCEPT !.st = "cm", !.cur.com = JoinNL(@, x.com)]
    [] x.k = "oc" /\ s.st \in Free -> LET f == Fresh(s) IN [f EXCEPT !.st = "cm", !.cur.refs = @ \o x.refs]
    [] x.k = "fl" /\ s.st \in Free -> LET f == Fresh(s) IN [f EXCEPT !.st = "cm", !.cur.flags = @ \o x.flags]
    [] x.k = "pp" /\ s.st \in Free -> [Fresh(s) EXCEPT !.st = "pp"]
    [] x.k = "pc" /\ s.st = "pp" -> s
    [] x.k = "ct" /\ s.st \in Free -> LET f == Fresh(s) IN [f EXCEPT !.st = "ct", !.cur.ctx = [has |-> TRUE, val |-> x.val]]
    [] x.k = "mi" /\ s.st \in Free \cup {"ct"} -> LET f == Fresh(s) IN [f EXCEPT !.st = "mi", !.cur.id = x.val, !.cur.obs = x.obs]
    [] x.k = "mp" /\ s.st = "mi" -> [s EXCEPT !.st = "mp", !.cur.plural = x.val]
    [] x.k = "ms" /\ s.st \in {"mi", "mp"} -> [s EXCEPT !.st = "ms", !.cur.str = x.val]
    [] x.k = "mx" /\ s.st \in {"mi", "mp", "mx"} -> [s EXCEPT !.st = "mx", !.idx = x.idx, !.cur.strs = SetPlural(@, x.idx, x.val)]
    [] x.k = "mc" /\ s.st = "ct" -> [s EXCEPT !.cur.ctx.val = @ \o x.val]
    [] x.k = "mc" /\ s.st = "mi" -> [s EXCEPT !.cur.id = @ \o x.val]
    [] x.k = "mc" /\ s.st = "mp" -> [s EXCEPT !.cur.plural = @ \o x.val]
    [] x.k = "mc" /\ s.st = "ms" -> [s EXCEPT !.cur.str = @ \o x.val]
    [] x.k = "mc" /\ s.st = "mx" -> [s EXCEPT !.cur.strs = AddPlural(@, s.idx, x.val)]
    [] OTHER -> [s EXCEPT !.ok = FALSE]
\* the fields of the header, from its text
Fields(text) ==
  LET ls == PyLines(text)
      Put(fs, k, v) == LET i == SelectInSeq(fs, LAMBDA f : f.k = k) IN IF i = 0 THEN Append(fs, [k |-> k, v |-> v]) ELSE [fs EXCEPT ![i].v = v]
      r == FoldLeft(LAMBDA st, l : LET c == SelectInSeq(l, LAMBDA x : x = 58) IN
              IF c > 0 THEN [has |-> TRUE, key |-> SubSeq(l, 1, c - 1), fs |-> Put(st.fs, SubSeq(l, 1, c - 1), Strip(From(l, c + 1)))]
              ELSE IF ~st.has THEN st
              ELSE LET i == SelectInSeq(st.fs, LAMBDA f : f.k = st.key) IN [st EXCEPT !.fs[i].v = @ \o <<NL>> \o Strip(l)],
            [has |-> FALSE, key |-> <<>>, fs |-> <<>>], ls)
  IN [i \in 1..Len(r.fs) |-> [k |-> r.fs[i].k, v |-> Strip(r.fs[i].v)]]
NoIgnored(s) == \* the text does not end in a comment line that stands for nothing
  LET ls == Lines(s)
      k == SelectLastInSeq(ls, LAMBDA l : Strip(l) # <<>>)
  IN k > 0 => LET w == Words(ls[k])[1] IN ~(w = <<Hash, 126, 124>> \/ (Strip(ls[k]) = w /\ w \in {<<Hash, 58>>, <<Hash, 44>>, <<Hash, 46>>}))
Parse(t) ==
  LET s == IF At(t, 1) = 65279 THEN Tail(t) ELSE t
      ls == Lines(s)
      r0 == FoldLeft(LAMBDA st, l : IF ~st.ok THEN st ELSE Step(st, Line(Strip(l))), S0, ls)
      r == Fresh(r0)
      noid == {i \in 1..Len(r.done) : r.done[i].id = <<>> /\ ~r.done[i].obs}
      bare == {i \in noid : ~r.done[i].ctx.has \/ r.done[i].ctx.val = <<>>}
      h == IF bare = {} THEN 0 ELSE CHOOSE i \in bare : TRUE
      lead == SelectInSeq(r.header, LAMBDA c : c # NL)
  IN [ok |-> r.ok /\ r.st \in {"st", "cm", "ms", "mx"} /\ NoIgnored(s)
            \* the header is the one entry without an identifier
            /\ Cardinality(bare) <= 1 /\ (noid # {} => bare # {} /\ \A i \in bare : ~r.done[i].ctx.has /\ r.done[i].strs = <<>>),
      header |-> IF lead = 0 THEN <<>> ELSE TrimRight(From(r.header, lead), PyWhite),
      fields |-> IF h = 0 THEN <<>> ELSE Fields(r.done[h].str),
      ents |-> IF h = 0 THEN r.done ELSE SubSeq(r.done, 1, h - 1) \o From(r.done, h + 1)]

-------------------------------------------------------------------------------
(* The resource a PO file is: metadata in order, plural forms as variants.     *)
cTcom == "translator-comments"
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Name(i, plurals) == IF plurals = <<>> THEN Digits(i) ELSE plurals[i + 1]
Variants(strs, plurals) ==
  LET top == CHOOSE m \in {strs[i].i : i \in 1..Len(strs)} : \A i \in 1..Len(strs) : strs[i].i <= m
  IN [j \in 1..top + 1 |-> [any |-> j = top + 1, key |-> Name(j - 1, plurals),
        val |-> LET k == SelectInSeq(strs, LAMBDA p : p.i = j - 1) IN IF k = 0 THEN <<>> ELSE strs[k].v]]
M(k, v) == [k |-> k, v |-> v]
Metas(k, vs) == [i \in 1..Len(vs) |-> M(k, vs[i])]
cTrue == <<116, 114, 117, 101>>
EntryOf(e, plurals) ==
  [id |-> IF e.ctx.has THEN <<e.id, e.ctx.val>> ELSE <<e.id>>, com |-> e.com,
   sel |-> e.strs # <<>>, val |-> IF e.strs = <<>> THEN <<[any |-> TRUE, key |-> <<>>, val |-> e.str]>> ELSE Variants(e.strs, plurals),
   meta |-> (IF e.tcom = <<>> THEN <<>> ELSE <<M("translator-comments", e.tcom)>>) \o Metas("reference", e.refs) \o (IF e.obs THEN <<M("obsolete", cTrue)>> ELSE <<>>)
            \o Metas("flag", e.flags) \o (IF e.plural = <<>> THEN <<>> ELSE <<M("plural", e.plural)>>)]
ResourceOf(p, plurals, skip) ==
  LET es == IF skip THEN SelectSeq(p.ents, LAMBDA e : ~e.obs) ELSE p.ents
  IN [com |-> p.header, meta |-> p.fields, ents |-> [i \in 1..Len(es) |-> EntryOf(es[i], plurals)]]
MaxIndex(p) == LET all == Concat([i \in 1..Len(p.ents) |-> p.ents[i].strs]) IN FoldLeft(LAMBDA a, x : IF x.i > a THEN x.i ELSE a, -1, all)

-------------------------------------------------------------------------------
(* What a resource to be serialized says                                       *)
ComLines(c) == LET ls == PyLines(c) IN [i \in 1..Len(ls) |-> TrimRight(ls[i], PyWhite)]
NoBlank(ls) == SelectSeq(ls, LAMBDA l : l # <<>>)
TrimLines(ls) == LET a == SelectInSeq(ls, LAMBDA l : l # <<>>) b == SelectLastInSeq(ls, LAMBDA l : l # <<>>) IN IF a = 0 THEN <<>> ELSE SubSeq(ls, a, b)
Squeeze(s) == SelectSeq(s, LAMBDA c : c \notin PyWhite)
\* comments are wrapped: then only their words are kept
NormCom(c, wrap) == IF wrap > 0 /\ \E i \in 1..Len(PyLines(c)) : Len(PyLines(c)[i]) + 3 > wrap THEN Squeeze(c) ELSE JoinWith(TrimLines(ComLines(c)), <<NL>>)
NormExt(c, wrap) == IF wrap > 0 /\ \E i \in 1..Len(PyLines(c)) : Len(PyLines(c)[i]) + 3 > wrap THEN Squeeze(c) ELSE JoinWith(NoBlank(ComLines(c)), <<NL>>)
NormHead(c) == LET ls == TrimLines(ComLines(c)) IN JoinWith([i \in 1..Len(ls) |-> IF At(ls[i], 1) = 32 /\ At(ls[i], 2) \in {44, 58} THEN Tail(ls[i]) ELSE ls[i]], <<NL>>)
Vals(metas, k) == LET ms == SelectSeq(metas, LAMBDA m : m.k = k) IN [i \in 1..Len(ms) |-> ms[i].v]
cFalse == <<102, 97, 108, 115, 101>>
IsObs(metas) == LET v == Vals(metas, "obsolete") IN v # <<>> /\ Last(v) # cFalse
LastOf(vs) == IF vs = <<>> THEN <<>> ELSE Last(vs)
\* number of plural forms of the header, 0 if unknown
cNplurals == <<110, 112, 108, 117, 114, 97, 108, 115, 61>>
cPluralForms == <<80, 108, 117, 114, 97, 108, 45, 70, 111, 114, 109, 115>>
Nplurals(meta) ==
  LET k == SelectLastInSeq(meta, LAMBDA m : m.k = cPluralForms) IN
  IF k = 0 THEN 0
  ELSE LET v == TrimLeft(meta[k].v, PyWhite)
           d == SelectInSeq(From(v, 10), LAMBDA c : c \notin Digit)
       IN IF ~StartsWith(v, cNplurals) \/ d <= 1 \/ At(v, 9 + d) # 59 THEN 0 ELSE FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, SubSeq(v, 10, 8 + d))
Count(n, plurals, e) == IF n > 0 THEN n ELSE IF plurals # <<>> THEN Len(plurals) ELSE IF e.val = <<>> THEN 1 ELSE Len(e.val)
NamesFor(n, plurals, e) == LET c == Count(n, plurals, e) IN IF plurals = <<>> THEN [i \in 1..c |-> Digits(i - 1)] ELSE SubSeq(plurals, 1, IF c < Len(plurals) THEN c ELSE Len(plurals))
IndexOf(names, k) == SelectInSeq(names, LAMBDA x : x = k)
\* which form a variant is: by its name, a catch-all with another name being the last
FormOf(names, v) == LET i == IndexOf(names, v.key) IN IF i > 0 THEN i ELSE IF v.any THEN IndexOf(names, Last(names)) ELSE 0
PluralOk(n, plurals, e) == LET names == NamesFor(n, plurals, e) IN
  /\ \A i \in 1..Len(e.val) : FormOf(names, e.val[i]) > 0
  /\ \A i, j \in 1..Len(e.val) : i # j => FormOf(names, e.val[i]) # FormOf(names, e.val[j])
Forms(n, plurals, e) == LET names == NamesFor(n, plurals, e) IN
  [i \in 1..Count(n, plurals, e) |-> LET k == SelectInSeq(e.val, LAMBDA v : FormOf(names, v) = i) IN IF k = 0 THEN <<>> ELSE e.val[k].val]
FieldOk(m) == m.k # <<>> /\ All(m.k, LAMBDA c : c # 58 /\ c \notin LineBreaks) /\ \A i \in 2..Len(PyLines(m.v)) : All(PyLines(m.v)[i], LAMBDA c : c # 58)
MetaOk(m) ==
  CASE m.k = "reference" -> m.v # <<>> /\ All(m.v, LAMBDA c : c \notin PyWhite)
    [] m.k = "flag" -> m.v # <<>> /\ Strip(m.v) = m.v /\ All(m.v, LAMBDA c : c \notin {44, 10, 13})
    [] OTHER -> m.k \in {"translator-comments", "obsolete", "plural"}
Expressible(res, plurals) ==
  /\ \A i \in 1..Len(res.meta) : FieldOk(res.meta[i]) /\ \A j \in 1..Len(res.meta) : i # j => res.meta[i].k # res.meta[j].k
  /\ \A i \in 1..Len(res.secs) : LET s == res.secs[i] IN ~s.meta /\ s.id = <<>> /\ s.com = <<>> /\ \A k \in 1..Len(s.ents) :
       LET e == s.ents[k] IN
       /\ e.t = "ent" /\ ~e.odd /\ Len(e.id) \in {1, 2} /\ (\E j \in 1..Len(e.id) : e.id[j] # <<>>)
       /\ \A j \in 1..Len(e.meta) : MetaOk(e.meta[j])
       /\ (e.sel => PluralOk(Nplurals(res.meta), plurals, e))
NormVal(v) == LET ls == PyLines(v) IN Strip(JoinWith([i \in 1..Len(ls) |-> Strip(ls[i])], <<NL>>))
SaidEntry(e, n, plurals, wrap) ==
  LET obs == IsObs(e.meta) IN
  [id |-> e.id, obs |-> obs, plural |-> LastOf(Vals(e.meta, "plural")), com |-> IF obs THEN <<>> ELSE NormExt(e.com, wrap),
   tcom |-> LET v == Vals(e.meta, "translator-comments") IN NormCom(JoinWith([i \in 1..Len(v) |-> JoinWith(TrimLines(ComLines(v[i])), <<NL>>)], <<NL>>), wrap), refs |-> IF obs THEN <<>> ELSE Vals(e.meta, "reference"), flags |-> Vals(e.meta, "flag"),
   forms |-> IF e.sel THEN Forms(n, plurals, e) ELSE <<e.val[1].val>>, sel |-> e.sel]
Expect(res, plurals, wrap) ==
  [com |-> NormHead(res.com), meta |-> {M(res.meta[i].k, NormVal(res.meta[i].v)) : i \in 1..Len(res.meta)},
   ents |-> Concat([i \in 1..Len(res.secs) |-> [k \in 1..Len(res.secs[i].ents) |-> SaidEntry(res.secs[i].ents[k], Nplurals(res.meta), plurals, wrap)]])]
\* and what a parsed resource says
SaysEntry(e, wrap) ==
  [id |-> e.id, obs |-> IsObs(e.meta), plural |-> LastOf(Vals(e.meta, "plural")), com |-> NormExt(e.com, wrap), tcom |-> NormCom(LastOf(Vals(e.meta, "translator-comments")), wrap),
   refs |-> Vals(e.meta, "reference"), flags |-> Vals(e.meta, "flag"), forms |-> [i \in 1..Len(e.val) |-> e.val[i].val], sel |-> e.sel]
Says(r, wrap) == [com |-> NormHead(r.com), meta |-> {r.meta[i] : i \in 1..Len(r.meta)}, ents |-> [i \in 1..Len(r.ents) |-> SaysEntry(r.ents[i], wrap)]]
\* wrapped comments on either side are compared by words alone
Wrapped(a, b) == a.com = b.com /\ a.meta = b.meta /\ Len(a.ents) = Len(b.ents) /\ \A i \in 1..Len(a.ents) :
  LET x == a.ents[i] y == b.ents[i] IN
  /\ [x EXCEPT !.com = <<>>, !.tcom = <<>>] = [y EXCEPT !.com = <<>>, !.tcom = <<>>]
  /\ x.com = y.com \/ x.com = Squeeze(y.com)
  /\ x.tcom = y.tcom \/ x.tcom = Squeeze(y.tcom)
If1(c, n) == IF c THEN {} ELSE {n}
GettextVerdict(ev) ==
  CASE ev.op = "parse" ->
         LET p == Parse(ev.text) IN
         IF ~p.ok \/ (ev.plurals # <<>> /\ MaxIndex(p) >= Len(ev.plurals)) THEN {}
         ELSE IF ev.raised THEN {"rejected"}
         ELSE LET x == ResourceOf(p, ev.plurals, ev.skip) IN
              If1(ev.res.com = x.com, "header_comment") \cup If1(ev.res.meta = x.meta, "header") \cup If1(ev.res.ents = x.ents, "entries") \cup If1(ev.shape, "shape")
    [] ev.op = "ser" ->
         IF ev.raised THEN If1(~Expressible(ev.res, ev.plurals), "refused") \cup If1(ev.ve, "wrong_error")
         ELSE IF ~Expressible(ev.res, ev.plurals) THEN {"not_refused"}
         ELSE LET p == Parse(ev.text)
                  x == Expect(ev.res, ev.plurals, ev.wrap)
              IN IF ~p.ok THEN {"malformed"}
                 ELSE If1(Wrapped(x, Says(ResourceOf(p, <<>>, FALSE), 0)), "content") \cup If1(Wrapped(x, Says(ev.back, 0)), "reparsed")
=============================================================================
