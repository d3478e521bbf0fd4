------------------------------ MODULE J_Compare -----------------------------
EXTENDS Compare, JudgeBase
=============================================================================
