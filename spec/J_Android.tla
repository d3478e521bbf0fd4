------------------------------ MODULE J_Android -----------------------------
EXTENDS Android, JudgeBase
=============================================================================
