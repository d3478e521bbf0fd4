----------------------------- MODULE MC_Compare -----------------------------
(* A source and a localization growing message by message, files breaking    *)
(* and being removed.  Nothing is missing exactly when all is there; every   *)
(* step changes the report of its own file only, by its own message only;    *)
(* filters only take files away from the report.                             *)
EXTENDS Compare, TLC, Json, IOUtils
CONSTANT MaxStep
VARIABLES src, loc, n, what
pA == <<97, 46, 102, 116, 108>>
pB == <<98, 46, 105, 110, 105>>
Paths == {pA, pB}
Ids == {<<109>>, <<110>>}
Opts == {<<>>, <<102, 116, 108>>, <<33, 102, 116, 108>>, <<34, 46, 105, 110, 105, 44, 32, 33, 97, 34>>}
Get(fs, p) == IF There(fs, p) THEN FileAt(fs, p) ELSE [path |-> p, ok |-> TRUE, ids |-> {}]
Put(fs, f) == {g \in fs : g.path # f.path} \cup {f}
Init == src = {} /\ loc = {} /\ n = 0 /\ what = [k |-> "init", path |-> <<>>, id |-> <<>>]
Next == /\ n < MaxStep /\ n' = n + 1
        /\ \E p \in Paths :
           \/ \E i \in Ids : /\ src' = Put(src, [path |-> p, ok |-> TRUE, ids |-> Get(src, p).ids \cup {i}]) /\ loc' = loc /\ what' = [k |-> "src", path |-> p, id |-> i]
           \/ \E i \in Ids : /\ Get(loc, p).ok /\ loc' = Put(loc, [Get(loc, p) EXCEPT !.ids = @ \cup {i}]) /\ src' = src /\ what' = [k |-> "loc", path |-> p, id |-> i]
           \/ loc' = Put(loc, [path |-> p, ok |-> FALSE, ids |-> {}]) /\ src' = src /\ what' = [k |-> "break", path |-> p, id |-> <<>>]
           \/ loc' = {f \in loc : f.path # p} /\ src' = src /\ what' = [k |-> "rm", path |-> p, id |-> <<>>]
Spec == Init /\ [][Next]_<<src, loc, n, what>>
Fs == {[path |-> f.path, ids |-> f.ids] : f \in src}
Ids_(ms, p) == UNION {m.ids : m \in {x \in ms : x.path = p}}
Complete == (Missing(Fs, loc) = {} /\ Errors(Fs, loc) = {}) <=> \A f \in NonEmpty(Fs) : There(loc, f.path) /\ FileAt(loc, f.path).ok /\ f.ids \subseteq FileAt(loc, f.path).ids
Apart == \A m \in Missing(Fs, loc) : m.ids # {} /\ m.path \notin Errors(Fs, loc) /\ \E f \in Fs : f.path = m.path /\ m.ids \subseteq f.ids
Filter == \A o \in Opts : LET c == Considered(Fs, o) IN Missing(c, loc) = {m \in Missing(Fs, loc) : Wanted(o, m.path)} /\ Errors(c, loc) = {p \in Errors(Fs, loc) : Wanted(o, p)}
Steps == [][LET a == Missing(Fs, loc)  fs == {[path |-> f.path, ids |-> f.ids] : f \in src'}  b == Missing(fs, loc') IN
             /\ \A p \in Paths \ {what'.path} : Ids_(a, p) = Ids_(b, p) /\ (p \in Errors(Fs, loc) <=> p \in Errors(fs, loc'))
             /\ (what'.k = "loc" => Ids_(b, what'.path) = Ids_(a, what'.path) \ {what'.id})
             /\ (what'.k = "rm" => Ids_(b, what'.path) = Get(src, what'.path).ids)
             /\ (what'.k = "break" => Ids_(b, what'.path) = {})]_<<src, loc, n, what>>
Emit == (IOEnv.EMIT = "1" /\ n = MaxStep) => PrintT("CASE " \o ToJson([src |-> src, loc |-> loc]))
=============================================================================
