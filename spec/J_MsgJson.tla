---- MODULE J_MsgJson ----
EXTENDS MsgJson, JudgeBase
====
