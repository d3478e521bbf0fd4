---- MODULE J_JsonFormats ----
EXTENDS JsonFormats, JudgeBase
====
