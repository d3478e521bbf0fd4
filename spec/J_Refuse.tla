------------------------------ MODULE J_Refuse ------------------------------
EXTENDS Refuse, JudgeBase
=============================================================================
