---- MODULE J_IncIni ----
EXTENDS JudgeBase
INC == INSTANCE Inc
INI == INSTANCE Ini
IncIniVerdict(ev) == IF ev.fmt = "inc" THEN INC!IncVerdict(ev) ELSE INI!IniVerdict(ev)
====
