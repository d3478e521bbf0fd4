---- MODULE J_AndroidLocale ----
EXTENDS AndroidLocale, JudgeBase
====
