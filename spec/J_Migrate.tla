------------------------------- MODULE J_Migrate ---------------------------
EXTENDS Migrate, JudgeBase
=============================================================================
