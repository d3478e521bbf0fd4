------------------------------- MODULE Merge --------------------------------
(* C09: merging a source resource into a target (add_entries).              *)
(* A merge is a run over the source's entries in order.  Its state:         *)
(*   secs  the target's sections so far                                     *)
(*   cnt   additions and changes so far                                     *)
(*   cur   index of the last target section with a match, or last created   *)
(*         one (0: none)                                                    *)
(*   prev  position <<section, entry>> of the preceding source entry of     *)
(*         this source section in the target, <<>> if it has none           *)
(*   new   entries of this source section waiting for a section of their own*)
EXTENDS Model

MatchIn(sec, eid) == SelectInSeq(sec.ents, LAMBDA e : IsEnt(e) /\ e.id = eid)
\* the first position holding entry `eid` in a section `sid`, or <<>>
MatchPos(secs, sid, eid) ==
  LET s == SelectInSeq(secs, LAMBDA x : x.id = sid /\ MatchIn(x, eid) > 0)
  IN IF s = 0 THEN <<>> ELSE <<s, MatchIn(secs[s], eid)>>

\* the source entry e of section src has a match at pos: keep it, or take the source's
Matched(st, src, e, pos, pref) ==
  LET old == st.secs[pos[1]]
      d1  == pref /\ ~EqEntry(old.ents[pos[2]], e)
      d2  == pref /\ (old.com # src.com \/ old.meta # src.meta)
      s1  == IF d1 THEN [old EXCEPT !.ents[pos[2]] = e] ELSE old
      s2  == IF d2 THEN [s1 EXCEPT !.com = src.com, !.meta = src.meta] ELSE s1
  IN [st EXCEPT !.secs[pos[1]] = s2, !.cnt = @ + (IF d1 THEN 1 ELSE 0) + (IF d2 THEN 1 ELSE 0),
                !.cur = pos[1], !.prev = pos]

\* it has none: add it after its predecessor, or to a matching section, or keep it for a new one.
\* Only the sections of the target that had the id when the source section was started count.
Added(st, src, e) ==
  IF st.prev # <<>> /\ st.secs[st.prev[1]].com = src.com
  THEN [st EXCEPT !.secs[st.prev[1]].ents = InsertAfter(@, st.prev[2], e), !.cnt = @ + 1, !.prev = <<@[1], @[2] + 1>>]
  ELSE LET t == SelectInSeq(st.secs, LAMBDA x : x.id = src.id /\ x.com = src.com)
       IN IF t # 0
          THEN [st EXCEPT !.secs[t].ents = Append(@, e), !.cnt = @ + 1, !.prev = <<t, Len(st.secs[t].ents) + 1>>]
          ELSE [st EXCEPT !.new = Append(@, e), !.cnt = @ + 1, !.prev = <<>>]

MergeEntry(st, src, e, pref) ==
  IF ~IsEnt(e) THEN st
  ELSE LET pos == MatchPos(st.secs, src.id, e.id)
       IN IF pos # <<>> THEN Matched(st, src, e, pos, pref) ELSE Added(st, src, e)

MergeSection(st, src, pref) ==
  LET m == FoldLeft(LAMBDA s, e : MergeEntry(s, src, e, pref), [st EXCEPT !.prev = <<>>, !.new = <<>>], src.ents)
  IN IF m.new = <<>> THEN m
     ELSE [m EXCEPT !.secs = InsertAfter(@, m.cur, [src EXCEPT !.ents = m.new]), !.cur = @ + 1]

MergeRun(tgt, source, pref) ==
  FoldLeft(LAMBDA s, src : MergeSection(s, src, pref),
           [secs |-> tgt.secs, cnt |-> 0, cur |-> 0, prev |-> <<>>, new |-> <<>>], source.secs)
Merged(tgt, source, pref) == [tgt EXCEPT !.secs = MergeRun(tgt, source, pref).secs]
Count(tgt, source, pref) == MergeRun(tgt, source, pref).cnt

--------------------------------------------------------------------------------
(* The guarantees, as properties of one merge tgt --source,pref--> after     *)
Keys(res) == {<<res.secs[i].id, e.id>> : i \in 1..Len(res.secs), e \in UNION {Range(Ents(res.secs[j])) : j \in 1..Len(res.secs)}}
KeySeq(res) == Concat([i \in 1..Len(res.secs) |-> LET es == Ents(res.secs[i]) IN [j \in 1..Len(es) |-> <<res.secs[i].id, es[j].id>>]])
KeySet(res) == Range(KeySeq(res))
\* s is t with elements left out
IsSubseq(s, t, Eq(_, _)) ==
  FoldLeft(LAMBDA k, x : IF k < Len(s) /\ Eq(s[k + 1], x) THEN k + 1 ELSE k, 0, t) = Len(s)
\* every old section survives in order, with all its entries and comments in order
SecKept(a, b) == a.id = b.id /\ a.com = b.com /\ a.meta = b.meta /\ IsSubseq(a.ents, b.ents, EqEntry)
SameSlot(a, b) == a.t = b.t /\ IF IsEnt(a) THEN a.id = b.id ELSE a.com = b.com
SecKeptLoosely(a, b) == a.id = b.id /\ IsSubseq(a.ents, b.ents, SameSlot)
NoLoss(tgt, after, pref) ==
  IF pref THEN IsSubseq(tgt.secs, after.secs, SecKeptLoosely) ELSE IsSubseq(tgt.secs, after.secs, SecKept)
ExactAdditions(tgt, source, after) == KeySet(after) = KeySet(tgt) \cup KeySet(source)
Additions(tgt, source) == Len(SelectSeq(KeySeq(source), LAMBDA k : k \notin KeySet(tgt)))
SourcePreferred(source, after) ==
  \A i \in 1..Len(source.secs) : \A j \in 1..Len(source.secs[i].ents) :
    LET e == source.secs[i].ents[j] IN
    IsEnt(e) => LET p == MatchPos(after.secs, source.secs[i].id, e.id)
                IN p # <<>> /\ EqEntry(after.secs[p[1]].ents[p[2]], e)
ValidRes(r) == NoDup(KeySeq(r))
--------------------------------------------------------------------------------
(* Verdict on a recorded history of merges into one target *)
StepVerdict(before, s) ==
  LET m == MergeRun(before, s.src, s.pref) IN
  (IF s.out.k # "ok" THEN {"raised"} ELSE
     (IF EqRes(s.after, [before EXCEPT !.secs = m.secs]) THEN {} ELSE {"target_after"})
     \cup (IF s.out.ret = m.cnt THEN {} ELSE {"count"})
     \cup (IF NoLoss(before, s.after, s.pref) THEN {} ELSE {"no_loss"})
     \cup (IF ExactAdditions(before, s.src, s.after) THEN {} ELSE {"exact_additions"}))
  \cup (IF s.srcafter = s.src THEN {} ELSE {"source_modified"})
MergeVerdict(ev) ==
  UNION {StepVerdict(IF i = 1 THEN ev.tgt ELSE ev.steps[i - 1].after, ev.steps[i]) : i \in 1..Len(ev.steps)}
=============================================================================
