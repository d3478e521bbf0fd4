---- MODULE J_Fix ----
EXTENDS Fix, JudgeBase
====
