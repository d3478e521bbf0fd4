---- MODULE J_Fluent ----
EXTENDS Fluent, JudgeBase
====
