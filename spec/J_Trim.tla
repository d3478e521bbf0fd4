------------------------------- MODULE J_Trim -------------------------------
EXTENDS Trim, JudgeBase
=============================================================================
