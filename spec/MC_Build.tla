------------------------------ MODULE MC_Build ------------------------------
(* A source and a localization of it are edited, and built file by file in   *)
(* any order with other files.                                               *)
EXTENDS Build, TLC, Json, IOUtils
CONSTANTS MaxStep, Fmt
VARIABLES src, loc, n, rep, stale
tA == <<97>>
tB == <<98>>
tT == <<45, 116>>
aX == <<120>>
aY == <<121>>
Txt(s) == [t |-> "pat", decl |-> <<>>, p |-> <<[t |-> "txt", s |-> s]>>]
Ent(id, at, w) == [t |-> "ent", id |-> <<id>>, com |-> <<>>, meta |-> <<>>, val |-> Txt(w), props |-> [i \in 1..Len(at) |-> [n |-> at[i], v |-> Txt(w)]]]
Res(es) == [fmt |-> Fmt, com |-> <<>>, meta |-> <<>>, secs |-> <<[id |-> <<>>, com |-> <<>>, meta |-> <<>>, ents |-> es]>>]
Attrs == {<<>>, <<aX>>, <<aX, aY>>}
Keys == {<<107>>, <<108>>}
None == [has |-> FALSE, es |-> <<>>]
IdsIn(es) == {es[i].id[1] : i \in 1..Len(es)}
Init == src = [k \in Keys |-> <<>>] /\ loc = [k \in Keys |-> None] /\ n = 0 /\ rep = <<>> /\ stale = Keys
F(k) == [rec |-> TRUE, src |-> Res(src[k]), has |-> loc[k].has, loc |-> Res(loc[k].es), key |-> k]
Next == /\ n < MaxStep /\ n' = n + 1
        /\ \E k \in Keys :
           \/ \E i \in {tA, tB, tT} \ IdsIn(src[k]), a \in Attrs : src' = [src EXCEPT ![k] = Append(@, Ent(i, a, <<115>>))] /\ loc' = loc /\ rep' = rep /\ stale' = stale \cup {k}
           \/ \E i \in {tA, tB, tT} \ IdsIn(loc[k].es), a \in Attrs : loc' = [loc EXCEPT ![k] = [has |-> TRUE, es |-> <<Ent(i, a, <<116>>)>> \o @.es]] /\ src' = src /\ rep' = rep /\ stale' = stale \cup {k}
           \/ loc' = [loc EXCEPT ![k] = None] /\ src' = src /\ rep' = rep /\ stale' = stale \cup {k}
           \/ rep' = Put(rep, k, CoverOf(F(k))) /\ stale' = stale \ {k} /\ UNCHANGED <<src, loc>>
Spec == Init /\ [][Next]_<<src, loc, n, rep, stale>>
B(k) == Built(Res(src[k]), loc[k].has, Res(loc[k].es))
BIds(k) == [i \in 1..Len(B(k)) |-> B(k)[i].e.id[1]]
SIds(k) == [i \in 1..Len(src[k]) |-> src[k][i].id[1]]
Ordered == \A k \in Keys : IF Fmt = Fluent THEN BIds(k) = SelectSeq(SIds(k), LAMBDA i : i \in Range(BIds(k))) ELSE BIds(k) = SIds(k)
\* every message once: localized or missing
Counted == \A k \in Keys : LET c == CoverOf(F(k))  m == Range(c.missing) IN
   /\ c.total = Len(src[k])
   /\ \A i \in 1..Len(src[k]) : LET id == src[k][i].id IN
        IF id \in m THEN Fmt # Fluent => \E x \in Range(B(k)) : x.e = src[k][i]
        ELSE \E x \in Range(B(k)) : x.e.id = id /\ \E l \in Range(loc[k].es) : l.id = id /\ x.e.val = l.val /\ (Fmt = Fluent /\ ~IsTerm(id) => Names(x.e) = Names(src[k][i]))
Again == \A k \in Keys : LET b == B(k) r == Res([i \in 1..Len(b) |-> b[i].e]) IN Built(Res(src[k]), TRUE, r) = b
\* the report is that of a full build for all files built since their last change
Fresh == \A k \in Keys \ stale : rep[k] = CoverOf(F(k))
OneFile == [][\A k \in DOMAIN rep : rep'[k] = rep[k] \/ rep'[k] = CoverOf(F(k))]_<<src, loc, n, rep, stale>>
Js(k) == [src |-> src[k], has |-> loc[k].has, loc |-> loc[k].es]
Emit == (IOEnv.EMIT = "1" /\ n = MaxStep /\ rep = <<>> /\ src[<<108>>] = <<>> /\ ~loc[<<108>>].has) => PrintT("CASE " \o ToJson([fmt |-> Fmt, file |-> Js(<<107>>)]))
=============================================================================
