---------------------------- MODULE MC_L10nEqual ----------------------------
(* A resource edited step by step.  Neutral edits (order, standalone         *)
(* comments, empty sections, repeated metadata, white space around comments, *)
(* splitting a plain anonymous section) never change its content; every      *)
(* other edit does.  Emits every (start, edited) pair.                       *)
EXTENDS L10nEqual, Json, IOUtils
CONSTANTS MaxEdits
VARIABLES start, cur, real, n
vars == <<start, cur, real, n>>
E(id, v, c) == [t |-> "ent", id |-> <<id>>, val |-> [t |-> "str", s |-> v], props |-> <<>>, com |-> c, meta |-> <<>>, lp |-> <<>>]
C == [t |-> "com", com |-> <<110>>, lp |-> <<>>]
Sec(id, com, meta, es) == [id |-> id, ents |-> es, com |-> com, meta |-> meta, lp |-> <<>>]
M == [k |-> "m", v |-> "1"]
R(secs) == [fmt |-> "", com |-> <<>>, meta |-> <<>>, secs |-> secs]
Starts == {
  R(<<Sec(<<>>, <<>>, <<>>, <<E("a", "1", <<>>), E("b", "2", <<107>>)>>), Sec(<<>>, <<65>>, <<>>, <<E("c", "1", <<>>)>>), Sec(<<>>, <<>>, <<>>, <<E("d", "1", <<>>)>>)>>),
  R(<<Sec(<<"x">>, <<>>, <<M>>, <<E("a", "1", <<>>)>>), Sec(<<"x">>, <<66>>, <<>>, <<E("b", "1", <<>>)>>), Sec(<<"y">>, <<>>, <<>>, <<E("a", "2", <<>>)>>)>>),
  R(<<Sec(<<>>, <<65>>, <<>>, <<E("a", "1", <<>>)>>), Sec(<<>>, <<66>>, <<>>, <<E("b", "1", <<>>)>>), Sec(<<"x">>, <<>>, <<>>, <<>>)>>) }
Init == start \in Starts /\ cur = start /\ real = FALSE /\ n = 0
SecIx == 1..Len(cur.secs)
EntIx(i) == 1..Len(cur.secs[i].ents)
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Neutral == n < MaxEdits /\ n' = n + 1 /\ UNCHANGED <<start, real>> /\
  \/ \E i \in SecIx : i < Len(cur.secs) /\ cur' = [cur EXCEPT !.secs = Swap(@, i)]
  \/ \E i \in SecIx : Len(cur.secs[i].ents) > 1 /\ \E j \in 1..Len(cur.secs[i].ents) - 1 : cur' = [cur EXCEPT !.secs[i].ents = Swap(@, j)]
  \/ \E i \in SecIx : cur' = [cur EXCEPT !.secs[i].ents = Append(@, C)]
  \/ cur' = [cur EXCEPT !.secs = Append(@, Sec(<<"z">>, <<67>>, <<>>, <<C>>))]
  \/ \E i \in SecIx : cur.secs[i].meta # <<>> /\ cur' = [cur EXCEPT !.secs[i].meta = Append(@, @[1])]
  \/ \E i \in SecIx : cur' = [cur EXCEPT !.secs[i].com = <<32>> \o @ \o <<10>>]
  \/ \E i \in SecIx : cur.secs[i].id = <<>> /\ Strip(cur.secs[i].com) = <<>> /\ cur.secs[i].meta = <<>> /\ Len(cur.secs[i].ents) > 1
       /\ cur' = [cur EXCEPT !.secs[i].ents = <<@[1]>>, !.secs = Append([@ EXCEPT ![i].ents = <<@[1]>>], [cur.secs[i] EXCEPT !.ents = Tail(@)])]
Real == n < MaxEdits /\ n' = n + 1 /\ ~real /\ real' = TRUE /\ UNCHANGED start /\
  \/ \E i \in SecIx : \E j \in EntIx(i) : IsEnt(cur.secs[i].ents[j]) /\
       \/ cur' = [cur EXCEPT !.secs[i].ents[j].val.s = "9"]
       \/ cur' = [cur EXCEPT !.secs[i].ents[j].id = <<"q">>]
       \/ cur' = [cur EXCEPT !.secs[i].ents[j].com = @ \o <<33>>]
       \/ cur' = [cur EXCEPT !.secs[i].ents[j].meta = Append(@, [k |-> "e", v |-> "1"])]
       \/ cur' = [cur EXCEPT !.secs[i].ents[j].props = <<[n |-> "p", v |-> [t |-> "str", s |-> "1"]]>>]
       \/ cur' = [cur EXCEPT !.secs[i].ents = RemoveAt(@, j)]
  \/ \E i \in SecIx : Ents(cur.secs[i]) # <<>> /\
       \/ cur' = [cur EXCEPT !.secs[i].id = Append(@, "w")]
       \/ cur' = [cur EXCEPT !.secs[i].com = @ \o <<33>>]
       \/ cur' = [cur EXCEPT !.secs[i].meta = Append(@, [k |-> "s", v |-> "1"])]
  \/ cur' = [cur EXCEPT !.com = <<33>>]
  \/ cur' = [cur EXCEPT !.meta = Append(@, M)]
  \/ cur' = [cur EXCEPT !.fmt = "fluent"]
Next == Neutral \/ Real
Spec == Init /\ [][Next]_vars
Exact == L10nEq(start, cur) <=> ~real
Symmetric == L10nEq(start, cur) = L10nEq(cur, start)
Emit == IOEnv.EMIT = "1" => PrintT("CASE " \o ToJson([a |-> start, b |-> cur]))
=============================================================================
