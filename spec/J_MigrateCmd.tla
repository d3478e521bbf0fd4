---------------------------- MODULE J_MigrateCmd ----------------------------
EXTENDS MigrateCmd, JudgeBase
=============================================================================
