-------------------------------- MODULE Inc --------------------------------
(* C17: .inc files: defines, comments and directives, on code points.        *)
(* Which characters beyond ASCII are word characters is given (w).           *)
EXTENDS Text
NL == 10
Hash == 35
Lines(s) == \* split at CR LF, CR and LF
  LET r == FoldLeft(LAMBDA st, i : IF s[i] = 10 /\ i > 1 /\ s[i - 1] = 13 THEN st
                      ELSE IF s[i] \in {10, 13} THEN [done |-> Append(st.done, st.cur), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, s[i])],
                    [done |-> <<>>, cur |-> <<>>], [i \in 1..Len(s) |-> i])
  IN Append(r.done, r.cur)
Word(c, w) == c \in Alpha \cup Digit \cup {95} \/ c \in w
cDefine == <<35, 100, 101, 102, 105, 110, 101>>
NoDefine == [ok |-> FALSE]
Define(l, w) ==
  LET r == From(l, 8)
      a == TrimLeft(r, {32, 9})
      k == SelectInSeq(a, LAMBDA c : ~Word(c, w))
      name == IF k = 0 THEN a ELSE SubSeq(a, 1, k - 1)
  IN IF ~StartsWith(l, cDefine) \/ Len(a) = Len(r) \/ name = <<>> THEN NoDefine
     ELSE IF k = 0 THEN [ok |-> TRUE, name |-> name, val |-> <<>>]
     ELSE IF a[k] \in {32, 9} THEN [ok |-> TRUE, name |-> name, val |-> From(a, k + 1)] ELSE NoDefine
Blank(l) == Strip(l) = <<>>
IsCom(l) == l = <<Hash>> \/ StartsWith(l, <<Hash, 32>>)
ComText(l) == LET t == TrimLeft(From(l, 3), PyWhite) IN IF At(t, 1) = Hash THEN l ELSE t
JoinNL(a, b) == IF a = <<>> THEN b ELSE a \o <<NL>> \o b
Flush(st) == IF st.com = <<>> THEN st ELSE [st EXCEPT !.items = Append(@, [t |-> "com", com |-> st.com]), !.com = <<>>]
Step(st, l, w) ==
  IF Blank(l) THEN Flush(st)
  ELSE IF IsCom(l) THEN [st EXCEPT !.com = JoinNL(@, ComText(l))]
  ELSE LET d == Define(l, w) IN
    IF d.ok THEN [st EXCEPT !.items = Append(@, [t |-> "ent", key |-> d.name, val |-> d.val, com |-> st.com]), !.com = <<>>]
    ELSE IF l[1] = Hash THEN LET f == Flush(st) IN [f EXCEPT !.items = Append(@, [t |-> "com", com |-> l])]
    ELSE [st EXCEPT !.ok = FALSE]
Parse(s, w) ==
  LET ls == Lines(s)
      r == Flush(FoldLeft(LAMBDA st, l : Step(st, l, w), [ok |-> TRUE, items |-> <<>>, com |-> <<>>], ls))
  IN [ok |-> r.ok, items |-> r.items]

-------------------------------------------------------------------------------
(* What a resource says: comment lines stripped of white space and leading #,  *)
(* directives as standalone comments of their own, newlines in values as spaces *)
Directive(l, w) == At(l, 1) = Hash /\ ~IsCom(l) /\ ~Define(l, w).ok
NormLine(l) ==
  FoldLeft(LAMBDA a, i : IF a = <<Hash>> THEN <<>> ELSE IF StartsWith(a, <<Hash, 32>>) THEN Strip(From(a, 3)) ELSE a, Strip(l), [i \in 1..Len(l) |-> i])
NormLines(ls) ==
  LET n == [i \in 1..Len(ls) |-> NormLine(ls[i])]
      a == SelectInSeq(n, LAMBDA l : l # <<>>)
      b == SelectLastInSeq(n, LAMBDA l : l # <<>>)
  IN IF a = 0 THEN <<>> ELSE JoinWith(SubSeq(n, a, b), <<NL>>)
Stand(c) == IF c = <<>> THEN <<>> ELSE <<[t |-> "com", com |-> c]>>
Groups(c, w) == \* [items: what stands alone, com: what follows the last directive]
  LET ls == Lines(c)
      r == FoldLeft(LAMBDA st, l : IF Directive(l, w) THEN [items |-> st.items \o Stand(NormLines(st.cur)) \o Stand(l), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, l)],
                    [items |-> <<>>, cur |-> <<>>], ls)
  IN [items |-> r.items, com |-> NormLines(r.cur)]
Alone(c, w) == LET g == Groups(c, w) IN g.items \o Stand(g.com)
Spaced(v) == JoinWith(Lines(v), <<32>>)
Expect(res, w) ==
  Alone(res.com, w) \o Concat([i \in 1..Len(res.secs) |->
    LET s == res.secs[i] IN Alone(s.com, w) \o Concat([k \in 1..Len(s.ents) |->
      LET e == s.ents[k] IN IF e.t = "com" THEN Alone(e.com, w)
        ELSE LET g == Groups(e.com, w) IN Append(g.items, [t |-> "ent", key |-> e.id[1], val |-> Spaced(e.val), com |-> g.com])])])
Says(items, w) == Concat([i \in 1..Len(items) |-> IF items[i].t = "com" THEN Alone(items[i].com, w) ELSE <<[items[i] EXCEPT !.com = NormLines(Lines(@))]>>])
IsName(s, w) == s # <<>> /\ All(s, LAMBDA c : Word(c, w))
Expressible(res, w) == ~res.meta /\
  \A i \in 1..Len(res.secs) : ~res.secs[i].meta /\ res.secs[i].id = <<>> /\ \A k \in 1..Len(res.secs[i].ents) :
     LET e == res.secs[i].ents[k] IN e.t = "ent" => ~e.meta /\ ~e.odd /\ Len(e.id) = 1 /\ IsName(e.id[1], w)

If1(c, n) == IF c THEN {} ELSE {n}
IncVerdict(ev) ==
  LET w == {ev.w[i] : i \in 1..Len(ev.w)} IN
  CASE ev.op = "parse" ->
         LET p == Parse(ev.text, w) IN
         IF ev.raised THEN If1(~p.ok, "rejected") \cup If1(ev.ve, "wrong_error")
         ELSE If1(p.ok, "accepted") \cup (IF p.ok THEN If1(ev.items = p.items, "content") \cup If1(ev.shape, "shape") ELSE {})
    [] ev.op = "ser" ->
         IF ev.raised THEN If1(~Expressible(ev.res, w), "refused") \cup If1(ev.ve, "wrong_error")
         ELSE IF ~Expressible(ev.res, w) THEN {"not_refused"}
         ELSE LET p == Parse(ev.text, w)
                  x == Expect(ev.res, w) IN
              If1(p.ok, "malformed") \cup If1(Says(p.items, w) = x, "content") \cup If1(Says(ev.back, w) = x, "reparsed")
=============================================================================
