---- MODULE J_Gettext ----
EXTENDS Gettext, JudgeBase
====
