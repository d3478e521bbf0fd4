---- MODULE J_L10nEqual ----
EXTENDS L10nEqual, JudgeBase
====
