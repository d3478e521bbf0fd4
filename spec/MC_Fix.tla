------------------------------ MODULE MC_Fix --------------------------------
(* all runs over up to MaxFiles files of five kinds of contents, one file     *)
(* possibly given twice: fix as a step by step process                        *)
EXTENDS Fix, Json, IOUtils
CONSTANTS MaxFiles, MaxOrder
Kinds == <<"canonical", "other", "unsup", "undec", "fail">>
Tab == << [cls |-> "ok", canon |-> 1], [cls |-> "ok", canon |-> 1], [cls |-> "unsup", canon |-> 3], [cls |-> "undec", canon |-> 4], [cls |-> "fail", canon |-> 5] >>
VARIABLES before, order, cont, pos, st
vars == <<before, order, cont, pos, st>>
Init ==
  /\ before \in UNION {[1..n -> 1..5] : n \in 1..MaxFiles}
  /\ order \in UNION {[1..n -> 1..Len(before)] : n \in 1..MaxOrder}
  /\ cont \in BOOLEAN /\ pos = 0 /\ st = Begin(before)
Next == /\ pos < Len(order) /\ ~st.stopped
        /\ pos' = pos + 1 /\ st' = FixOne(st, order[pos + 1], Tab, cont) /\ UNCHANGED <<before, order, cont>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pos = Len(order) \/ st.stopped
NeverDestroys == \A p \in 1..Len(before) : before[p] # 2 => st.disk[p] = before[p]
OnlyVisited == \A p \in 1..Len(before) : (\A i \in 1..pos : order[i] # p) => st.disk[p] = before[p]
AllFixed == Done /\ ~st.stopped => \A i \in 1..Len(order) : Tab[st.disk[order[i]]].canon = st.disk[order[i]]
StopsOnce == st.stopped => st.failed = 1 /\ ~cont /\ before[order[pos]] = 5
Same == Done => Run(order, before, Tab, cont) = st
Idempotent == Done => Run(order, st.disk, Tab, cont).disk = st.disk
Ends == <>Done
Emit == (IOEnv.EMIT = "1" /\ pos = 0) => PrintT("CASE " \o ToJson([kinds |-> [p \in 1..Len(before) |-> Kinds[before[p]]], order |-> order, cont |-> cont]))
=============================================================================
