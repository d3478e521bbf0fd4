----------------------------- MODULE Normalize ------------------------------
(* C27: normalizing messages; metadata reads, updates and deletions.         *)
EXTENDS Model
NormPattern(p) ==
  FoldLeft(LAMBDA a, x :
    IF x.t = "txt"
    THEN IF x.s = "" THEN a
         ELSE IF a # <<>> /\ a[Len(a)].t = "txt" THEN [a EXCEPT ![Len(a)].s = @ \o x.s]
         ELSE Append(a, x)
    ELSE Append(a, x), <<>>, p)
OptRefs(opt) == {opt[i].v.s : i \in {j \in 1..Len(opt) : opt[j].v.t = "var"}}
Refs(x) == IF x.t = "exp" THEN OptRefs(x.opt) \cup (IF x.arg.t = "var" THEN {x.arg.s} ELSE {})
           ELSE IF x.t = "mku" THEN OptRefs(x.opt) ELSE {}
PatRefs(p) == UNION {Refs(p[i]) : i \in 1..Len(p)}
Roots(m) == IF m.t = "sel" THEN Range(m.sel) \cup UNION {PatRefs(m.var[i].p) : i \in 1..Len(m.var)} ELSE PatRefs(m.p)
DeclRefs(m, names) == UNION {Refs(m.decl[i].e) : i \in {j \in 1..Len(m.decl) : m.decl[j].n \in names}}
RECURSIVE Closure(_, _)
Closure(m, names) == LET more == names \cup DeclRefs(m, names) IN IF more = names THEN names ELSE Closure(m, more)
Needed(m) == Closure(m, Roots(m))
Normalized(m) ==
  LET keep == Needed(m)  d == SelectSeq(m.decl, LAMBDA x : x.n \in keep) IN
  IF m.t = "sel" THEN [m EXCEPT !.decl = d, !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = NormPattern(@)]]]
  ELSE [m EXCEPT !.decl = d, !.p = NormPattern(@)]
EmptyPat(p) == \A i \in 1..Len(p) : p[i].t = "txt" /\ p[i].s = ""
IsEmpty(m) == IF m.t = "sel" THEN \A i \in 1..Len(m.var) : EmptyPat(m.var[i].p) ELSE EmptyPat(m.p)
NormVerdict(ev) ==
  IF ev.raised THEN {"raised"} ELSE
  (IF ev.after = Normalized(ev.before) THEN {} ELSE {"normalized"})
  \cup (IF ev.twice = ev.after THEN {} ELSE {"not_idempotent"})
  \cup (IF ev.empty = IsEmpty(ev.before) THEN {} ELSE {"is_empty"})
--------------------------------------------------------------------------------
(* Metadata: a sequence of [k, v] pairs.                                      *)
First(meta, k) == SelectInSeq(meta, LAMBDA m : m.k = k)
Has(meta, k, v, any) == \E i \in 1..Len(meta) : meta[i].k = k /\ (any \/ meta[i].v = v)
SetM(meta, k, v) == LET i == First(meta, k) IN IF i = 0 THEN Append(meta, [k |-> k, v |-> v]) ELSE [meta EXCEPT ![i].v = v]
DelM(meta, k) == SelectSeq(meta, LAMBDA m : m.k # k)
\* the recorded results: strings for get ("~" if none, else "=" and the value), booleans for has, counts for del
MetaOk(before, s) ==
  CASE s.op = "get" -> LET i == First(before, s.k) IN s.ret = (IF i = 0 THEN "~" ELSE "=" \o before[i].v) /\ s.after = before
    [] s.op = "has" -> s.b = Has(before, s.k, s.v, FALSE) /\ s.after = before
    [] s.op = "hasany" -> s.b = Has(before, s.k, "", TRUE) /\ s.after = before
    [] s.op = "set" -> s.after = SetM(before, s.k, s.v)
    [] s.op = "app" -> s.after = Append(before, [k |-> s.k, v |-> s.v])
    [] s.op = "del" -> s.after = DelM(before, s.k) /\ s.n = Len(before) - Len(s.after)
MetaVerdict(ev) ==
  UNION {IF ev.steps[i].raised THEN {"meta_raised"}
         ELSE IF MetaOk(IF i = 1 THEN ev.init ELSE ev.steps[i - 1].after, ev.steps[i]) THEN {} ELSE {"meta_" \o ev.steps[i].op} : i \in 1..Len(ev.steps)}
NormalizeVerdict(ev) == IF ev.op = "norm" THEN NormVerdict(ev) ELSE MetaVerdict(ev)
=============================================================================
