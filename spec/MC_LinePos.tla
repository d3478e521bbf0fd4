----------------------------- MODULE MC_LinePos ------------------------------
(* Documents grow by a block at a time.                                      *)
EXTENDS LinePos, TLC, Json, IOUtils
CONSTANTS MaxBlocks, MaxN
VARIABLES f, bs
B(k, n, v) == [k |-> k, n |-> n, v |-> v]
Plain_ == {B("blank", n, 0) : n \in 1..MaxN} \cup {B("com", n, 0) : n \in 1..MaxN}
Ents_ == {B("ent", n, v) : n \in 1..MaxN, v \in 0..(MaxN - 1)}
Extra == {B("group", 1, 0), B("close", 1, 0), B("res", 1, 0)}
Blocks(fmt) == Plain_ \cup {b \in Ents_ : b.v < b.n} \cup (IF fmt = "fluent" THEN Extra ELSE {})
Init == f \in {"fluent", "properties"} /\ bs = <<>>
Next == Len(bs) < MaxBlocks /\ f' = f /\ \E b \in Blocks(f) : bs' = Append(bs, b) /\ Apart(bs')
Spec == Init /\ [][Next]_<<f, bs>>
P == Positions(f, bs)
A == AllPos(P)
N == Lines(bs)
InOrder == \A i \in 1..Len(A) : Ordered(A[i]) /\ A[i][4] <= N + 1
NoOverlap == Disjoint(A)
\* where each block is
StartOf(i) == 1 + Lines(SubSeq(bs, 1, i - 1))
EveryEntry == \A i \in 1..Len(bs) : bs[i].k = "ent" => \E j \in 1..Len(A) : A[j][2] = StartOf(i) /\ A[j][3] = StartOf(i) + bs[i].v /\ A[j][4] = StartOf(i) + bs[i].n
\* only comments come before the key, and only those directly before it
OnlyItsComment == \A j \in 1..Len(A) : A[j][1] < A[j][2] => \E i \in 1..(Len(bs) - 1) : bs[i].k = "com" /\ bs[i + 1].k = "ent" /\ StartOf(i) = A[j][1] /\ StartOf(i + 1) = A[j][2]
\* what follows does not move what was before, nor do blank lines change more than the numbers
Shift(lp, n) == IF lp = <<>> THEN <<>> ELSE [i \in 1..4 |-> lp[i] + n]
Shifted == LET q == Positions(f, <<B("blank", 1, 0)>> \o bs) IN
           (bs # <<>> /\ bs[1].k # "blank") => q = [i \in 1..Len(P) |-> [lp |-> Shift(P[i].lp, 1), ents |-> [j \in 1..Len(P[i].ents) |-> Shift(P[i].ents[j], 1)]]]
Emit == (IOEnv.EMIT = "1" /\ bs # <<>>) => PrintT("CASE " \o ToJson([fmt |-> f, blocks |-> bs]))
=============================================================================
