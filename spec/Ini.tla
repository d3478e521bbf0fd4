-------------------------------- MODULE Ini --------------------------------
(* C17: .ini files: sections, options, continuations and comments.           *)
EXTENDS Text
NL == 10
White(c) == c \in PyWhite
\* A line, classified: its kind and parts
Has(c, s) == c \in {59, 35} \* ; #
IsRem(s) == Len(s) >= 3 /\ s[1] \in {82, 114} /\ s[2] \in {69, 101} /\ s[3] \in {77, 109} /\ (Len(s) = 3 \/ s[4] \in PyWhite)
NoCom == [has |-> FALSE, text |-> <<>>]
Com(t) == [has |-> TRUE, text |-> t]
Bad == [k |-> "bad"]
SectionLine(s) ==
  LET j == IndexFrom(s, 93, 2)
      r == TrimLeft(From(s, j + 1), PyWhite)
  IN IF j <= 2 THEN Bad
     ELSE IF r = <<>> THEN [k |-> "sec", name |-> SubSeq(s, 2, j - 1), com |-> NoCom]
     ELSE IF r[1] \in {59, 35} THEN [k |-> "sec", name |-> SubSeq(s, 2, j - 1), com |-> Com(From(r, 2))]
     ELSE Bad
OptionLine(s) ==
  LET j == SelectInSeq(s, LAMBDA c : c \in {58, 61})
      v == TrimLeft(From(s, j + 1), PyWhite)
      c == IndexFrom(v, 59, 1)
      name == TrimRight(SubSeq(s, 1, j - 1), PyWhite)
  IN IF j <= 1 THEN Bad
     ELSE IF c > 1 /\ v[c - 1] \in PyWhite THEN [k |-> "opt", name |-> name, val |-> TrimRight(SubSeq(v, 1, c - 1), PyWhite), com |-> Com(From(v, c + 1))]
     ELSE [k |-> "opt", name |-> name, val |-> v, com |-> NoCom]
Line(l) ==
  LET s == TrimRight(l, PyWhite) IN
  CASE s = <<>> -> [k |-> "empty"]
    [] s # <<>> /\ s[1] \in {59, 35} -> [k |-> "com", com |-> Com(From(s, 2))]
    [] IsRem(s) -> [k |-> "com", com |-> Com(From(s, 4))]
    [] s # <<>> /\ s[1] = 91 -> SectionLine(s)
    [] s # <<>> /\ s[1] \in PyWhite -> [k |-> "cont", val |-> TrimLeft(s, PyWhite)]
    [] OTHER -> OptionLine(s)
Lines(s) == Split(IF At(s, 1) = 65279 THEN Tail(s) ELSE s, NL)
JoinNL(a, b) == IF a = <<>> THEN b ELSE a \o <<NL>> \o b
Add(com, c) == IF ~c.has THEN com ELSE JoinNL(com, IF At(c.text, 1) = 32 THEN Tail(c.text) ELSE c.text)
SI == [com |-> <<>>, secs |-> <<>>, rescom |-> <<>>, open |-> FALSE, blanks |-> 0, ok |-> TRUE]
Flush(st) ==
  IF st.com = <<>> THEN st
  ELSE IF st.secs = <<>> THEN [st EXCEPT !.rescom = IF @ = <<>> THEN st.com ELSE @ \o <<NL, NL>> \o st.com, !.com = <<>>]
  ELSE [st EXCEPT !.secs[Len(st.secs)].items = Append(@, [t |-> "com", com |-> st.com]), !.com = <<>>]
\* open: an option may be continued; blanks: empty lines since its last line
Step(st, l) ==
  LET x == Line(l) IN
  CASE x.k = "empty" -> [Flush(st) EXCEPT !.blanks = @ + 1]
    [] x.k = "com" -> [st EXCEPT !.com = Add(@, x.com), !.open = FALSE]
    [] x.k = "sec" -> [st EXCEPT !.secs = Append(@, [name |-> x.name, com |-> Add(st.com, x.com), items |-> <<>>]), !.com = <<>>, !.open = FALSE]
    [] x.k = "opt" /\ st.secs # <<>> ->
         [st EXCEPT !.secs[Len(st.secs)].items = Append(@, [t |-> "ent", key |-> x.name, val |-> x.val, com |-> Add(st.com, x.com)]), !.com = <<>>, !.open = TRUE, !.blanks = 0]
    [] x.k = "cont" /\ st.open ->
         LET items == Last(st.secs).items IN
         [st EXCEPT !.secs[Len(st.secs)].items[Len(items)].val = @ \o [i \in 1..st.blanks + 1 |-> NL] \o x.val, !.blanks = 0]
    [] OTHER -> [st EXCEPT !.ok = FALSE]
Parse(s) ==
  LET r == Flush(FoldLeft(LAMBDA st, l : Step(st, l), SI, Lines(s))) IN
  IF r.ok THEN [ok |-> TRUE, secs |-> r.secs, com |-> r.rescom] ELSE [ok |-> FALSE]

-------------------------------------------------------------------------------
LineBreaks == {10, 11, 12, 13, 28, 29, 30, 133, 8232, 8233}
PyLines(s) == \* lines as splitlines() has them, a final empty one included
  LET r == FoldLeft(LAMBDA st, i : IF s[i] = 10 /\ i > 1 /\ s[i - 1] = 13 THEN st
                      ELSE IF s[i] \in LineBreaks THEN [done |-> Append(st.done, st.cur), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, s[i])],
                    [done |-> <<>>, cur |-> <<>>], [i \in 1..Len(s) |-> i])
  IN Append(r.done, r.cur)
NormVal(v) == JoinWith([i \in 1..Len(PyLines(TrimRight(v, PyWhite))) |-> Strip(PyLines(TrimRight(v, PyWhite))[i])], <<NL>>)
NormCom(c) ==
  LET n == [i \in 1..Len(Split(c, NL)) |-> TrimRight(Split(c, NL)[i], PyWhite)]
      a == SelectInSeq(n, LAMBDA l : l # <<>>)
      b == SelectLastInSeq(n, LAMBDA l : l # <<>>)
  IN IF a = 0 THEN <<>> ELSE JoinWith(SubSeq(n, a, b), <<NL>>)
Stand(c) == IF NormCom(c) = <<>> THEN <<>> ELSE <<[t |-> "com", com |-> NormCom(c)]>>
Expect(res) ==
  [com |-> NormCom(res.com), secs |-> [i \in 1..Len(res.secs) |->
    LET s == res.secs[i] IN [name |-> JoinWith(s.id, <<46>>), com |-> NormCom(s.com), items |-> Concat([k \in 1..Len(s.ents) |->
      LET e == s.ents[k] IN IF e.t = "com" THEN Stand(e.com)
        ELSE <<[t |-> "ent", key |-> JoinWith(e.id, <<46>>), val |-> NormVal(e.val), com |-> NormCom(e.com)]>>])]]]
Says(p) ==
  [com |-> NormCom(p.com), secs |-> [i \in 1..Len(p.secs) |->
    LET s == p.secs[i] IN [name |-> s.name, com |-> NormCom(s.com), items |-> Concat([k \in 1..Len(s.items) |->
      LET e == s.items[k] IN IF e.t = "com" THEN Stand(e.com) ELSE <<[e EXCEPT !.com = NormCom(@)]>>])]]]
IsId(s) == s # <<>> /\ s[1] \notin PyWhite /\ Last(s) \notin PyWhite /\ All(s, LAMBDA c : c \notin {10, 58, 61, 91, 93})
IsOpt(s) == IsId(s) /\ s[1] \notin {59, 35} /\ ~IsRem(s)
ComValue(v) == \* the first line would be cut at a comment
  LET l == TrimLeft(PyLines(TrimRight(v, PyWhite))[1], PyWhite)
      c == IndexFrom(l, 59, 1)
  IN c > 1 /\ l[c - 1] \in PyWhite
Expressible(res) == ~res.meta /\
  \A i \in 1..Len(res.secs) : ~res.secs[i].meta /\ IsId(JoinWith(res.secs[i].id, <<46>>)) /\ \A k \in 1..Len(res.secs[i].ents) :
     LET e == res.secs[i].ents[k] IN e.t = "ent" => ~e.meta /\ ~e.odd /\ IsOpt(JoinWith(e.id, <<46>>)) /\ ~ComValue(e.val)

If1(c, n) == IF c THEN {} ELSE {n}
IniVerdict(ev) ==
  CASE ev.op = "parse" ->
         LET p == Parse(ev.text) IN
         IF ev.raised THEN If1(~p.ok, "rejected")
         ELSE If1(p.ok, "accepted") \cup (IF p.ok THEN If1(ev.secs = p.secs, "content") \cup If1(ev.com = p.com, "resource_comment") \cup If1(ev.shape, "shape") ELSE {})
    [] ev.op = "ser" ->
         IF ev.raised THEN If1(~Expressible(ev.res), "refused") \cup If1(ev.ve, "wrong_error")
         ELSE IF ~Expressible(ev.res) THEN {"not_refused"}
         ELSE LET p == Parse(ev.text)
                  x == Expect(ev.res) IN
              IF ~p.ok THEN {"malformed"} ELSE If1(Says(p) = x, "content") \cup If1(Says(ev.back) = x, "reparsed")
=============================================================================
