----------------------------- MODULE L10nEqual ------------------------------
(* C10: when two resources have the same localizable content.               *)
(* Comments are code point sequences here, as white space around them is     *)
(* not content.                                                             *)
EXTENDS Model, Text

MetaSet(m) == {<<m[i].k, m[i].v>> : i \in 1..Len(m)}
PropSet(ps) == {<<ps[i].n, ps[i].v.t, NormMsg(ps[i].v)>> : i \in 1..Len(ps)}
EntContent(e) == [id |-> e.id, com |-> Strip(e.com), meta |-> MetaSet(e.meta), mt |-> e.val.t, val |-> NormMsg(e.val), props |-> PropSet(e.props)]
\* equality of sequences up to order (bags)
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
EqContent(a, b) == a.id = b.id /\ a.com = b.com /\ a.meta = b.meta /\ a.mt = b.mt /\ a.val = b.val /\ a.props = b.props
SameEnts(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : EqContent(a[j], a[i])}) = Cardinality({j \in 1..Len(b) : EqContent(b[j], a[i])})
SameSec(a, b) == a.id = b.id /\ a.com = b.com /\ a.meta = b.meta /\ SameEnts(a.ents, b.ents)
SameSecs(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : SameSec(a[j], a[i])}) = Cardinality({j \in 1..Len(b) : SameSec(b[j], a[i])})

SecContent(s) == [id |-> s.id, com |-> Strip(s.com), meta |-> MetaSet(s.meta), ents |-> LET es == Ents(s) IN [i \in 1..Len(es) |-> EntContent(es[i])]]
Plain(s) == s.id = <<>> /\ s.com = <<>> /\ s.meta = {}
\* the sections with entries, all plain anonymous ones counted as one
Content(r) ==
  LET withEnts == SelectSeq(r.secs, LAMBDA s : Ents(s) # <<>>)
      cs == [i \in 1..Len(withEnts) |-> SecContent(withEnts[i])]
      plain == SelectSeq(cs, Plain)
      rest == SelectSeq(cs, LAMBDA s : ~Plain(s))
      one == IF plain = <<>> THEN <<>>
             ELSE <<[id |-> <<>>, com |-> <<>>, meta |-> {}, ents |-> Concat([i \in 1..Len(plain) |-> plain[i].ents])]>>
  IN one \o rest
L10nEq(a, b) ==
  /\ a.fmt = b.fmt
  /\ Strip(a.com) = Strip(b.com)
  /\ MetaSet(a.meta) = MetaSet(b.meta)
  /\ SameSecs(Content(a), Content(b))

EqualVerdict(ev) ==
  LET exp == L10nEq(ev.a, ev.b) IN
  (IF ev.ab.k # "ok" \/ ev.ba.k # "ok" THEN {"raised"}
   ELSE (IF ev.ab.ret = exp THEN {} ELSE IF exp THEN {"reported_different"} ELSE {"reported_equal"})
        \cup (IF ev.ab.ret = ev.ba.ret THEN {} ELSE {"not_symmetric"}))
  \cup (IF ev.a2 = ev.a /\ ev.b2 = ev.b THEN {} ELSE {"input_modified"})
=============================================================================
