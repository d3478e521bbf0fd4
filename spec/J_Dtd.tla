---- MODULE J_Dtd ----
EXTENDS Dtd, JudgeBase
====
