------------------------------- MODULE J_Config -----------------------------
EXTENDS Config, JudgeBase
=============================================================================
