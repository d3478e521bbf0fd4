------------------------------ MODULE J_Discover ----------------------------
EXTENDS Discover, JudgeBase
=============================================================================
