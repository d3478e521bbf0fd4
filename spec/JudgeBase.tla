----------------------------- MODULE JudgeBase -----------------------------
(* Trace validation: the recorded calls of the implementation are consumed  *)
(* one per step; Verdict(e) is the set of clauses of the specification that *)
(* the recorded call e breaks (empty when e is a behaviour of the spec).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Verdict(_)
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
JInit == l = 1 /\ bad = 0
JNext ==
  /\ l <= Len(Trace)
  /\ LET v == Verdict(Trace[l]) IN
       /\ l' = l + 1
       /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
       /\ (v # {} => PrintT(<<"BAD", l, v>>))
JSpec == JInit /\ [][JNext]_<<l, bad>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
