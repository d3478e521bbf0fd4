------------------------------ MODULE J_LinePos ------------------------------
EXTENDS LinePos, JudgeBase
=============================================================================
