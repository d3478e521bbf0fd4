---- MODULE J_Normalize ----
EXTENDS Normalize, JudgeBase
====
