------------------------------ MODULE J_Xliff -------------------------------
EXTENDS Xliff, JudgeBase
=============================================================================
