---- MODULE J_Mf2 ----
EXTENDS Mf2, JudgeBase
====
