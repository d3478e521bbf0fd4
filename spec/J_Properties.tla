---- MODULE J_Properties ----
EXTENDS Properties, JudgeBase
====
