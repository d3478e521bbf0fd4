----------------------------- MODULE MC_Migrate -----------------------------
(* A file and another one are migrated, again and again; the map is built    *)
(* one function at a time.  Named: with sections, for insertion.             *)
EXTENDS Migrate, TLC, Json, IOUtils
CONSTANTS MaxMap, MaxRun, Named, EmitAll
VARIABLES fs, map, n, last
ia == <<97>>
ib == <<98>>
ic == <<99>>
i1 == <<110, 49>>
i2 == <<110, 50>>
sS == <<83>>
sT == <<84>>
P0 == <<109, 48>>
P1 == <<109, 49>>
fr == <<102, 114>>
Txt(s) == [t |-> "pat", decl |-> <<>>, p |-> <<[t |-> "txt", s |-> s]>>]
E(id, w) == [t |-> "ent", id |-> <<id>>, com |-> <<>>, meta |-> <<>>, val |-> Txt(w), props |-> <<>>]
Sec_(id, ids, w) == [id |-> id, com |-> <<>>, meta |-> <<>>, ents |-> [k \in 1..Len(ids) |-> E(ids[k], w \o ids[k])]]
Res(secs) == [fmt |-> "fluent", com |-> <<>>, meta |-> <<>>, secs |-> secs]
Seqs(S, m) == UNION {{s \in [1..k -> S] : \A i, j \in 1..k : s[i] = s[j] => i = j} : k \in 0..m}
NoRes == [fmt |-> "", com |-> <<>>, meta |-> <<>>, secs |-> <<>>]
File(p, st, r) == [lc |-> fr, path |-> p, st |-> st, res |-> r]
Plain(w, ids) == Res(<<Sec_(<<>>, ids, w)>>)
Owns == IF Named THEN {File(P0, "res", Res(<<Sec_(<<sS>>, x, <<49>>), Sec_(k, y, <<50>>), Sec_(<<sS>>, <<ic>>, <<51>>)>>)) : x \in Seqs({ia, ib}, 2), y \in Seqs({ia, ib}, 1), k \in {<<>>, <<sT>>, <<sS, sT>>}}
        ELSE {File(P0, "missing", NoRes), File(P0, "bad", NoRes)} \cup {File(P0, "res", Plain(<<48>>, x)) : x \in Seqs({ia, ib, i1}, 2)}
Others == IF Named THEN {File(P1, "missing", NoRes)} ELSE {File(P1, "missing", NoRes)} \cup {File(P1, "res", Plain(<<49>>, x)) : x \in Seqs({ia, ic}, 2)}
Refs == <<[path |-> P0, need |-> FALSE, st |-> "res", res |-> Res(<<>>)], [path |-> P1, need |-> FALSE, st |-> "res", res |-> Res(<<>>)]>>
Q(i) == IF Named THEN {<<sS, i>>, <<sT, i>>, <<sS, sT, i>>, <<i>>} ELSE {<<i>>}
Cp(ref, id) == [t |-> "copy", ref |-> ref, id |-> id, prop |-> <<>>, var |-> <<>>, vo |-> FALSE, rep |-> "none"]
Fns(p) == {Cp(ref, id) : ref \in {<<>>, <<P1>>}, id \in (IF Named THEN {<<sS, ia>>, <<sT, ib>>} ELSE {<<ia>>, <<i1>>, <<ic>>})}
          \cup {[t |-> "msg", v |-> Txt(<<78>>), after |-> a] : a \in {<<>>, <<<<>>>>, <<<<IF Named THEN <<sS, ia>> ELSE <<ib>>>>>>}}
          \cup {[t |-> "none"]}
          \cup {[t |-> "entry", value |-> <<Cp(<<>>, <<ia>>)>>, props |-> <<>>, partial |-> FALSE, com |-> <<>>, meta |-> <<>>]}
Targets == UNION {Q(i) : i \in IF Named THEN {i1, ia} ELSE {i1, i2, ia}}
Maps == LET last_ == map[Len(map)] IN
        {Append(SubSeq(map, 1, Len(map) - 1), [last_ EXCEPT !.ents = Append(@, [id |-> t, f |-> f])]) : t \in {t \in Targets : \A k \in 1..Len(last_.ents) : last_.ents[k].id # t}, f \in Fns(last_.path)}
Entry0(p, t, f) == [path |-> p, lcs |-> <<fr>>, ents |-> <<[id |-> t, f |-> f]>>]
Init == /\ \E o \in Owns, x \in Others : fs = <<o, x>>
        /\ map = <<>> /\ n = 0 /\ last = [done |-> FALSE, before |-> fs, ret |-> <<>>]
Total == FoldLeft(LAMBDA a, m : a + Len(m.ents), 0, map)
Next == \/ /\ n = 0 /\ Total < MaxMap
           /\ \/ map # <<>> /\ map' \in Maps
              \/ \E p \in {P0, P1} : (\A k \in 1..Len(map) : map[k].path # p) /\ (Named => p = P0) /\ \E t \in Targets, f \in Fns(p) : map' = Append(map, Entry0(p, t, f))
           /\ UNCHANGED <<fs, n, last>>
        \/ /\ map # <<>> /\ n < MaxRun
           /\ n' = n + 1 /\ map' = map
           /\ LET a == Apply(map, fs, Refs) IN fs' = a.fs /\ last' = [done |-> TRUE, before |-> fs, ret |-> a.ret]
Spec == Init /\ [][Next]_<<fs, map, n, last>>
Old(i) == last.before[i]
New(i) == fs[i]
Ids(r) == Concat([k \in 1..Len(r.secs) |-> [j \in 1..Len(r.secs[k].ents) |-> r.secs[k].id \o r.secs[k].ents[j].id]])
\* nothing is lost or changed, and nothing else comes than is told
Preserved == \A i \in 1..2 : Old(i).st = "res" => /\ New(i).st = "res"
                                                  /\ LET o == ItemIds(Old(i).res) IN SelectSeq(Items(New(i).res), LAMBDA x : IdOf(x) \in o) = Items(Old(i).res)
Told == \A i \in 1..2 : LET r == {x \in Range(last.ret) : x.path = New(i).path} IN
          IF r = {} THEN last.done => New(i) = Old(i)
          ELSE \A x \in r : /\ New(i).st = "res" /\ x.ids # <<>>
                            /\ {IdOf(y) : y \in Range(Items(New(i).res))} = (IF Old(i).st = "res" THEN ItemIds(Old(i).res) ELSE {}) \cup {<<id>> : id \in Range(x.ids)}
Once == \A i \in 1..2 : New(i).st = "res" => \A id \in Range(Ids(New(i).res)) : Cardinality({k \in 1..Len(Ids(New(i).res)) : Ids(New(i).res)[k] = id}) = 1 \/ (\E k, j \in 1..Len(Ids(Old(i).res)) : k # j /\ Ids(Old(i).res)[k] = id /\ Ids(Old(i).res)[j] = id)
\* only what could not be made before is added later
MapIds(p) == UNION {{m.ents[k].id : k \in 1..Len(m.ents)} : m \in {m \in Range(map) : m.path = p}}
CopiesTarget == \E m \in Range(map) : \E k \in 1..Len(m.ents) : LET f == m.ents[k].f  g == IF f.t = "entry" THEN f.value[1] ELSE f IN g.t = "copy" /\ \E p \in {P0, P1} : g.id \in MapIds(p)
Again == n >= 2 /\ ~CopiesTarget => last.ret = <<>>
\* where an entry goes
Places == Named /\ (map = <<>> \/ (n = MaxRun /\ Total = 1)) => LET r == fs[1].res IN \A id \in Targets, S \in SUBSET {<<sS, ia>>, <<sS, ib>>, <<sT, ia>>, <<sS, ic>>} :
   LET o == Insert(r, [E(id[1], <<33>>) EXCEPT !.id = id], S) IN
   IF o = <<>> THEN \A k \in 1..Len(r.secs) : ~IsPrefix_(r.secs[k].id, id)
   ELSE \E k \in 1..Len(r.secs) : LET new == o[1].secs[k] IN
        /\ new # r.secs[k] /\ \A j \in 1..Len(r.secs) : j # k => o[1].secs[j] = r.secs[j]
        /\ \E p \in 1..Len(new.ents) : /\ SubSeq(new.ents, 1, p - 1) \o SubSeq(new.ents, p + 1, Len(new.ents)) = r.secs[k].ents
                                       /\ new.id \o new.ents[p].id = id /\ new.ents[p].val = Txt(<<33>>)
                                       /\ (p = 1 \/ new.id \o new.ents[p - 1].id \notin S => p = Len(new.ents) /\ \A j \in 1..Len(r.secs) : r.secs[j].id = new.id => \A e \in Range(r.secs[j].ents) : r.secs[j].id \o e.id \notin S)
                                       /\ \A q \in (p + 1)..Len(new.ents) : new.id \o new.ents[q].id \notin S
JsF(f) == IF f.st = "res" /\ ~Named THEN [has |-> TRUE, bad |-> FALSE, ids |-> [k \in 1..Len(f.res.secs[1].ents) |-> f.res.secs[1].ents[k].id]] ELSE [has |-> FALSE, bad |-> f.st = "bad", ids |-> <<>>]
JsFn(f) == CASE f.t = "copy" -> [t |-> "copy", id |-> f.id, ref |-> f.ref # <<>>] [] f.t = "entry" -> [t |-> "entry", partial |-> f.partial, value |-> <<[t |-> "copy", id |-> f.value[1].id, ref |-> FALSE]>>]
            [] f.t = "msg" -> [t |-> "msg", after |-> f.after] [] OTHER -> [t |-> "none"]
Emit == (IOEnv.EMIT = "1" /\ n = 0 /\ Total = MaxMap /\ ~Named /\ (EmitAll \/ JsF(fs[2]).ids = <<<<ia>>, <<ic>>>>) /\ JsF(fs[1]).ids \in {<<>>, <<<<ia>>, <<ib>>>>, <<<<ib>>, <<i1>>>>}) => PrintT("CASE " \o ToJson([named |-> Named, own |-> JsF(fs[1]), other |-> JsF(fs[2]), map |-> [k \in 1..Len(map) |-> [path |-> map[k].path, ents |-> [j \in 1..Len(map[k].ents) |-> [id |-> map[k].ents[j].id, f |-> JsFn(map[k].ents[j].f)]]]]]))
=============================================================================
