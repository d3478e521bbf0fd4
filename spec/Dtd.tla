-------------------------------- MODULE Dtd ---------------------------------
(* C16: DTD text: entity declarations, comments and includes, on code points. *)
EXTENDS Text
NL == 10
InRanges(c, R) == \E r \in R : r[1] <= c /\ c <= r[2]
NameStart(c) == InRanges(c, {<<58, 58>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<192, 214>>, <<216, 246>>, <<248, 767>>, <<880, 893>>, <<895, 8191>>,
   <<8204, 8205>>, <<8304, 8591>>, <<11264, 12271>>, <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>})
NameChar(c) == NameStart(c) \/ InRanges(c, {<<45, 46>>, <<48, 57>>, <<183, 183>>, <<768, 879>>, <<8255, 8256>>})
(* A matcher maps a position to the position after the match, 0 if there is none *)
Lit(s, i, l) == IF i > 0 /\ i + Len(l) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(l) - 1) = l THEN i + Len(l) ELSE 0
RunOf(s, i, P(_)) == LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA c : ~P(c)) IN IF k = 0 THEN Len(s) + 1 ELSE i + k - 1
White(c) == c \in PyWhite
Ws0(s, i) == IF i = 0 THEN 0 ELSE RunOf(s, i, White)
Ws1(s, i) == IF i = 0 THEN 0 ELSE LET k == RunOf(s, i, White) IN IF k = i THEN 0 ELSE k
NameAt(s, i) == IF i = 0 \/ i > Len(s) \/ ~NameStart(s[i]) THEN 0 ELSE RunOf(s, i + 1, NameChar)
Quoted(s, i) == IF i = 0 \/ At(s, i) \notin {34, 39} THEN 0 ELSE LET k == IndexFrom(s, s[i], i + 1) IN IF k = 0 THEN 0 ELSE k + 1
cEntity == <<60, 33, 69, 78, 84, 73, 84, 89>>   \* <!ENTITY
cSystem == <<83, 89, 83, 84, 69, 77>>
NoMatch == [end |-> 0]
EntityAt(s, i) ==
  LET a == Ws1(s, Lit(s, i, cEntity))
      b == NameAt(s, a)
      c == Ws1(s, b)
      d == Quoted(s, c)
      e == Lit(s, Ws0(s, d), <<62>>)
  IN IF e = 0 THEN NoMatch ELSE [end |-> e, name |-> SubSeq(s, a, b - 1), val |-> SubSeq(s, c + 1, d - 2)]
IncludeAt(s, j) ==
  LET i == Ws0(s, j)
      a == Lit(s, Ws1(s, Lit(s, i, cEntity)), <<37>>)
      b == Ws1(s, a)
      c == NameAt(s, b)
      d == Lit(s, Ws1(s, c), cSystem)
      e == Ws1(s, d)
      f == Quoted(s, e)
      g == Lit(s, Ws0(s, f), <<62>>)
      h == Lit(s, Ws0(s, g), <<37>>)
      k == IF h = 0 THEN 0 ELSE Lit(s, Lit(s, h, SubSeq(s, b, c - 1)), <<59>>)
  IN IF k = 0 THEN NoMatch ELSE [end |-> Ws0(s, k), name |-> SubSeq(s, b, c - 1), val |-> SubSeq(s, e + 1, f - 2)]
Dashes == <<45, 45>>
CommentEnd(s, i) == Lit(s, Ws0(s, Lit(s, i, Dashes)), <<62>>)
CommentAt(s, i) ==
  LET a == Lit(s, Ws0(s, Lit(s, i, <<60, 33>>)), Dashes)
      j == IF a = 0 THEN 0 ELSE SelectInSeq([k \in 1..Len(s) - a + 1 |-> k + a - 1], LAMBDA k : s[k] = 45 /\ CommentEnd(s, k) > 0)
  IN IF a = 0 \/ j = 0 THEN NoMatch ELSE [end |-> CommentEnd(s, a + j - 1), text |-> SubSeq(s, a, a + j - 2)]
(* Tokens: entities and comments, leftmost first, and the text between them *)
Tokens(s) ==
  LET Push(st, i, tok) == [st EXCEPT !.toks = (IF TRUE THEN Append(@, [k |-> "other", text |-> SubSeq(s, st.from, i - 1)]) ELSE @) \o <<tok>>, !.from = tok.end, !.next = tok.end]
      r == FoldLeft(LAMBDA st, i :
             IF i < st.next \/ s[i] # 60 THEN st
             ELSE LET e == EntityAt(s, i) IN
                  IF e.end > 0 THEN Push(st, i, [k |-> "ent", end |-> e.end, name |-> e.name, val |-> e.val])
                  ELSE LET c == CommentAt(s, i) IN IF c.end > 0 THEN Push(st, i, [k |-> "com", end |-> c.end, text |-> c.text]) ELSE st,
             [toks |-> <<>>, from |-> 1, next |-> 1], [i \in 1..Len(s) |-> i])
  IN IF r.from > Len(s) /\ (r.toks = <<>> \/ Last(r.toks).k = "com") THEN r.toks ELSE Append(r.toks, [k |-> "other", text |-> From(s, r.from)])
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Includes(s) ==  \* [ok, metas]: the text between entities and comments is includes and white space
  LET r == FoldLeft(LAMBDA st, i : IF st.done \/ i < st.next THEN st ELSE
              LET m == IncludeAt(s, i) IN IF m.end = 0 THEN [st EXCEPT !.done = TRUE] ELSE [st EXCEPT !.metas = Append(@, [k |-> m.name, v |-> m.val]), !.next = m.end],
              [metas |-> <<>>, next |-> 1, done |-> FALSE], [i \in 1..Len(s) |-> i])
  IN [metas |-> r.metas, ok |-> \A i \in r.next..Len(s) : s[i] \in PyWhite]
HasEntity(s) == \E i \in 1..Len(s) : s[i] = 60 /\ EntityAt(s, i).end > 0
NoCR(s) == FoldLeft(LAMBDA a, c : IF c = NL /\ a # <<>> /\ Last(a) = 13 THEN Append(Front(a), NL) ELSE Append(a, c), <<>>, s)
JoinNL(a, b) == IF a = <<>> THEN b ELSE a \o <<NL>> \o b
Parse(s) ==
  LET toks == Tokens(s)
      Detach(st) == IF st.com = <<>> THEN st
                    ELSE IF st.items # <<>> \/ st.rescom # <<>> THEN [st EXCEPT !.items = Append(@, [t |-> "com", com |-> st.com]), !.com = <<>>]
                    ELSE [st EXCEPT !.rescom = st.com, !.com = <<>>]
      r == FoldLeft(LAMBDA st, i :
             LET k == toks[i] IN
             CASE k.k = "other" ->
                    LET inc == Includes(k.text)
                        s1 == [st EXCEPT !.ok = @ /\ inc.ok, !.meta = @ \o inc.metas, !.newline = Count(k.text, NL) > 0]
                    IN IF Count(k.text, NL) > 1 THEN Detach(s1) ELSE s1
               [] k.k = "ent" -> [st EXCEPT !.items = Append(@, [t |-> "ent", key |-> k.name, val |-> k.val, com |-> st.com]), !.com = <<>>, !.prev = TRUE]
               [] k.k = "com" ->
                    LET nc == NoCR(Strip(k.text))
                        com == JoinNL(st.com, nc)
                        s1 == [st EXCEPT !.prev = FALSE]
                    IN IF com = <<>> THEN s1
                       ELSE IF ~st.newline /\ st.prev
                       THEN [s1 EXCEPT !.items[Len(st.items)].com = JoinNL(@, com), !.com = <<>>]
                       ELSE IF HasEntity(com) THEN [s1 EXCEPT !.items = Append(@, [t |-> "com", com |-> com]), !.com = <<>>]
                       ELSE [s1 EXCEPT !.com = com],
             [items |-> <<>>, rescom |-> <<>>, meta |-> <<>>, com |-> <<>>, newline |-> TRUE, prev |-> FALSE, ok |-> TRUE], [i \in 1..Len(toks) |-> i])
  IN [ok |-> r.ok, rescom |-> r.rescom, meta |-> r.meta, items |-> IF r.com = <<>> THEN r.items ELSE Append(r.items, [t |-> "com", com |-> r.com])]

-------------------------------------------------------------------------------
(* What a resource says: names joined by dots, values without comment markup,  *)
(* comments line by line without indentation and with dashes kept apart.       *)
cQuot == <<38, 113, 117, 111, 116, 59>>
DropComments(s) ==
  LET r == FoldLeft(LAMBDA st, i : IF i < st.next THEN st
              ELSE IF s[i] = 60 /\ CommentAt(s, i).end > 0 THEN [st EXCEPT !.next = CommentAt(s, i).end]
              ELSE [st EXCEPT !.out = Append(@, s[i])], [out |-> <<>>, next |-> 1], [i \in 1..Len(s) |-> i])
  IN r.out
QuoteVal(v) == LET both == Count(v, 34) > 0 /\ Count(v, 39) > 0
               IN DropComments(IF both THEN Concat([i \in 1..Len(v) |-> IF v[i] = 34 THEN cQuot ELSE <<v[i]>>]) ELSE v)
Zwsp == 8203
SplitDashes(s) ==  \* pairs of dashes, left to right, become dash ZWSP dash ZWSP-free text of the format: - ZWSP -
  LET r == FoldLeft(LAMBDA st, c : IF c = 45 /\ st.open THEN [out |-> st.out \o <<Zwsp, 45>>, open |-> FALSE]
                                   ELSE [out |-> Append(st.out, c), open |-> c = 45], [out |-> <<>>, open |-> FALSE], s)
  IN r.out
Undash(s) == SelectSeq(s, LAMBDA c : c # Zwsp)
NormCom(c) ==
  LET ls == [i \in 1..Len(Split(c, NL)) |-> Strip(Undash(Split(c, NL)[i]))]
      a == SelectInSeq(ls, LAMBDA l : l # <<>>)
      b == SelectLastInSeq(ls, LAMBDA l : l # <<>>)
  IN IF a = 0 THEN <<>> ELSE JoinWith(SubSeq(ls, a, b), <<NL>>)
Stand(c) == IF NormCom(c) = <<>> THEN <<>> ELSE <<[t |-> "com", com |-> NormCom(c)]>>
Expect(res) ==
  Stand(res.com) \o Concat([i \in 1..Len(res.secs) |->
    LET s == res.secs[i] IN Stand(s.com) \o Concat([k \in 1..Len(s.ents) |->
      LET e == s.ents[k] IN IF e.t = "com" THEN Stand(e.com)
        ELSE <<[t |-> "ent", key |-> JoinWith(s.id \o e.id, <<46>>), val |-> QuoteVal(e.val), com |-> NormCom(e.com)]>>])])
ExpectMeta(res) == [i \in 1..Len(res.meta) |-> [k |-> res.meta[i].k, v |-> QuoteVal(res.meta[i].v)]]
SaysItems(rescom, items) == Stand(rescom) \o Concat([i \in 1..Len(items) |-> IF items[i].t = "com" THEN Stand(items[i].com) ELSE <<[items[i] EXCEPT !.com = NormCom(@)]>>])
IsName(s) == NameAt(s, 1) = Len(s) + 1
Expressible(res) ==
  /\ \A i \in 1..Len(res.meta) : IsName(res.meta[i].k)
  /\ \A i \in 1..Len(res.secs) : ~res.secs[i].meta /\ \A k \in 1..Len(res.secs[i].ents) : LET e == res.secs[i].ents[k] IN e.t = "ent" => ~e.meta /\ ~e.odd /\ IsName(JoinWith(res.secs[i].id \o e.id, <<46>>))

If1(c, n) == IF c THEN {} ELSE {n}
DtdVerdict(ev) ==
  CASE ev.op = "parse" ->
         LET p == Parse(ev.text) IN
         IF ev.raised THEN If1(~p.ok, "rejected") \cup If1(ev.ve, "wrong_error")
         ELSE If1(p.ok, "accepted") \cup (IF p.ok THEN If1(ev.items = p.items, "content") \cup If1(ev.com = p.rescom, "resource_comment") \cup If1(ev.meta = p.meta, "includes") \cup If1(ev.shape, "shape") ELSE {})
    [] ev.op = "ser" ->
         IF ev.raised THEN If1(~Expressible(ev.res), "refused") \cup If1(ev.ve, "wrong_error")
         ELSE IF ~Expressible(ev.res) THEN {"not_refused"}
         ELSE LET p == Parse(ev.text) IN
              If1(p.ok, "malformed") \cup If1(SaysItems(p.rescom, p.items) = Expect(ev.res), "content") \cup If1(p.meta = ExpectMeta(ev.res), "includes")
              \cup If1(SaysItems(ev.back.com, ev.back.items) = Expect(ev.res) /\ ev.back.meta = ExpectMeta(ev.res), "reparsed")
=============================================================================
