---- MODULE J_Merge ----
EXTENDS Merge, JudgeBase
====
