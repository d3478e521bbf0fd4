------------------------------ MODULE J_Detect ------------------------------
EXTENDS Detect, JudgeBase
=============================================================================
