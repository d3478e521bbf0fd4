---- MODULE J_Printf ----
EXTENDS Printf, JudgeBase
====
