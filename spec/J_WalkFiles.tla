---- MODULE J_WalkFiles ----
EXTENDS WalkFiles, JudgeBase
====
