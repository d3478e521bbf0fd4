------------------------------- MODULE J_MsgApi -------------------------------
EXTENDS MsgApi, JudgeBase
=============================================================================
