------------------------------ MODULE MC_Trim -------------------------------
(* Resources grow by sections, entries, standalone comments and by comments  *)
(* and metadata anywhere.  Trimming commutes with growth: adding a comment   *)
(* anywhere changes nothing, adding an entry adds it; trimming twice is      *)
(* trimming once, and nothing of a comment is left.                          *)
EXTENDS Trim, TLC, Json, IOUtils
CONSTANTS MaxStep
VARIABLES r, prev, last, n
Fmts == {"dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "android", "xliff"}
A == <<97>>
Coms == {<<99>>, <<99, 10, 35, 102>>, <<35, 102>>}
TxtVal == [t |-> "pat", decl |-> <<>>, p |-> <<[t |-> "txt", s |-> A]>>]
Metas == {[k |-> nNote, v |-> A], [k |-> cObsKey, v |-> A], [k |-> <<120>>, v |-> A]}
NewEnt(i) == [t |-> "ent", id |-> <<<<96 + i>>>>, val |-> TxtVal, props |-> <<>>, com |-> <<>>, meta |-> <<>>]
NewSec(i) == [id |-> IF r.fmt \in {"ini", "xliff"} THEN <<<<64 + i>>>> ELSE <<>>, ents |-> <<>>, com |-> <<>>, meta |-> <<>>]
Init == \E f \in Fmts : r = [fmt |-> f, secs |-> <<[id |-> IF f \in {"ini", "xliff"} THEN <<<<64>>>> ELSE <<>>, ents |-> <<>>, com |-> <<>>, meta |-> <<>>]>>, com |-> <<>>, meta |-> <<>>]
                      /\ prev = r /\ last = "init" /\ n = 0
NS == Len(r.secs)
NE == Len(r.secs[NS].ents)
Grow == \/ /\ r' = [r EXCEPT !.secs = Append(@, NewSec(n))] /\ last' = "sec"
        \/ /\ r' = [r EXCEPT !.secs[NS].ents = Append(@, NewEnt(n + 1))] /\ last' = "ent"
        \/ \E c \in Coms : r' = [r EXCEPT !.secs[NS].ents = Append(@, [t |-> "com", com |-> c])] /\ last' = "com"
Decorate == \/ \E c \in Coms : r.com = <<>> /\ r' = [r EXCEPT !.com = c]
            \/ \E c \in Coms : r.secs[NS].com = <<>> /\ r' = [r EXCEPT !.secs[NS].com = c]
            \/ NE > 0 /\ \E c \in Coms : r.secs[NS].ents[NE].com = <<>> /\ r' = [r EXCEPT !.secs[NS].ents[NE].com = c]
            \/ NE > 0 /\ r.secs[NS].ents[NE].t = "ent" /\ Len(r.secs[NS].ents[NE].meta) < 1 /\ \E m \in Metas : r' = [r EXCEPT !.secs[NS].ents[NE].meta = Append(@, m)]
Next == n < MaxStep /\ n' = n + 1 /\ prev' = r /\ (Grow \/ (Decorate /\ last' = "deco"))
Spec == Init /\ [][Next]_<<r, prev, last, n>>
Idempotent == Trim(Trim(r)) = Trim(r)
Clean == r.fmt # "inc" => NoComment(Trim(r))
Directives == r.fmt = "inc" => OnlyDirectives(Trim(r))
Ids(x) == LET es == SelectSeq(Flat(x), LAMBDA y : y.e.t = "ent") IN [i \in 1..Len(es) |-> es[i].e.id]
Keeps == r.fmt # "gettext" => Ids(Trim(r)) = Ids(r)
SameAsBefore == last \in {"com", "deco"} /\ r.fmt \notin {"inc", "android", "xliff", "gettext"} => Trim(r) = Trim(prev)
Emit == (IOEnv.EMIT = "1" /\ n > 0) => PrintT("CASE " \o ToJson([res |-> r]))
=============================================================================
