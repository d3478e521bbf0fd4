-------------------------------- MODULE Fix ---------------------------------
(* moz-l10n fix and lint over a run of files.  A disk maps paths to contents; *)
(* a table gives for each content whether it parses and serializes ("ok"), is *)
(* of no supported format ("unsup"), no text at all ("undec") or fails        *)
(* ("fail"), and for the first the content of its canonical form.             *)
EXTENDS Base
\* ------------------------------------------------------------------ fix
Begin(disk) == [disk |-> disk, failed |-> 0, stopped |-> FALSE]
FixOne(st, p, tab, cont) ==
  LET c == tab[st.disk[p]] IN
  IF st.stopped THEN st
  ELSE CASE c.cls = "ok" -> [st EXCEPT !.disk[p] = c.canon]
         [] c.cls = "fail" -> [st EXCEPT !.failed = @ + 1, !.stopped = ~cont]
         [] OTHER -> st
Run(order, disk, tab, cont) == FoldLeft(LAMBDA st, p : FixOne(st, p, tab, cont), Begin(disk), order)
FixExit(st) == IF st.failed > 0 THEN 1 ELSE 0
\* ----------------------------------------------------------------- lint
Considered(files, skip) == {i \in 1..Len(files) : ~(skip /\ ~files[i].l10n)}
LintExit(files, skip) == IF \E i \in Considered(files, skip) : files[i].cls # "ok" THEN 1 ELSE 0
\* --------------------------------------------------------------- judging
If(c, n) == IF c THEN {} ELSE {n}
Stable(tab, c) == tab[c].cls = "ok" => tab[tab[c].canon].cls = "ok" /\ tab[tab[c].canon].canon = tab[c].canon
FixVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] e.crash # "" -> {"crash"}
    [] ~e.args -> If(e.exit = 2, "exit_status") \cup If(e.after = e.before, "files_untouched")
    [] e.op = "fix" ->
         LET r == Run(e.order, e.before, e.tab, e.cont)
             s == Run(e.order, r.disk, e.tab, e.cont)
         IN If(e.after = r.disk, "files_after")
            \cup If(e.exit = FixExit(r), "exit_status")
            \cup If(e.second = e.after, "second_fix_changes")
            \cup If(e.exit2 = FixExit(s), "second_exit_status")
            \cup If(\A p \in 1..Len(e.before) : Stable(e.tab, e.before[p]), "canonical_form")
            \cup If(e.asexpected, "classified")
            \cup If(e.allfound, "files_considered")
    [] OTHER ->
         If(e.exit = LintExit(e.files, e.skip), "exit_status")
         \cup If(e.after = e.before, "files_untouched")
         \cup If(\A i \in 1..Len(e.files) : e.files[i].reported, "reported")
         \cup If(e.asexpected, "classified")
         \cup If(e.allfound, "files_considered")
=============================================================================
