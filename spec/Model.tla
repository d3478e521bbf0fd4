------------------------------- MODULE Model --------------------------------
(* The resource data model: messages, entries, sections, resources, as the  *)
(* records recorded from the implementation (harness/proj.py).              *)
(*   text part  [t |-> "txt", s]            literal text                    *)
(*   expression [t |-> "exp", arg, fn, opt, attr]                           *)
(*   markup     [t |-> "mku", kind, name, opt, attr]                        *)
(*   message    [t |-> "pat", decl, p] | [t |-> "sel", decl, sel, var]      *)
(*              | [t |-> "str", s]                                          *)
(*   entry      [t |-> "ent", id, val, props, com, meta, lp]                *)
(*   comment    [t |-> "com", com, lp]                                      *)
(* Options and attributes are recorded sorted by name, so that they compare *)
(* as the maps they are.  Absent strings are "" unless said otherwise.      *)
EXTENDS Base, FiniteSetsExt, Functions

SeqMap(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Filter(s, P(_)) == FoldLeft(LAMBDA a, x : IF P(x) THEN Append(a, x) ELSE a, <<>>, s)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
InsertAfter(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
NoDup(s) == Cardinality(Range(s)) = Len(s)

IsEnt(e) == e.t = "ent"
Ents(sec) == SelectSeq(sec.ents, IsEnt)
AllEnts(res) == Concat([i \in 1..Len(res.secs) |-> Ents(res.secs[i])])

(* Equality of messages as the data model has it: maps are unordered, all   *)
(* catch-all keys are the same key.                                         *)
NormKey(k) == IF k.t = "any" THEN [t |-> "any", s |-> ""] ELSE k
NormVar(v) == [k |-> SeqMap(NormKey, v.k), p |-> v.p]
NormMsg(m) ==
  CASE m.t = "pat" -> [t |-> "pat", decl |-> Range(m.decl), p |-> m.p]
    [] m.t = "sel" -> [t |-> "sel", decl |-> Range(m.decl), sel |-> m.sel, var |-> {NormVar(m.var[i]) : i \in 1..Len(m.var)}]
    [] OTHER -> m
EqMsg(a, b) == a.t = b.t /\ NormMsg(a) = NormMsg(b)
EqProps(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i].n = b[j].n /\ EqMsg(a[i].v, b[j].v)
EqEntry(a, b) ==
  /\ a.t = b.t
  /\ IF IsEnt(a)
     THEN a.id = b.id /\ a.com = b.com /\ a.meta = b.meta /\ EqMsg(a.val, b.val) /\ EqProps(a.props, b.props)
     ELSE a.com = b.com
EqSeq(a, b, Eq(_, _)) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i])
EqSection(a, b) == a.id = b.id /\ a.com = b.com /\ a.meta = b.meta /\ EqSeq(a.ents, b.ents, EqEntry)
EqRes(a, b) == a.fmt = b.fmt /\ a.com = b.com /\ a.meta = b.meta /\ EqSeq(a.secs, b.secs, EqSection)
=============================================================================
