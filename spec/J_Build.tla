------------------------------- MODULE J_Build -----------------------------
EXTENDS Build, JudgeBase
=============================================================================
