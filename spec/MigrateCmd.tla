----------------------------- MODULE MigrateCmd -----------------------------
(* The migrate command: scripts define migrations, which are applied in      *)
(* order to the paths given on the command line, or else to their own.       *)
(* The files are a set of facts: in this tree, for this locale, at this      *)
(* path, this identifier has this value.                                     *)
EXTENDS Sequences, FiniteSets, Naturals, SequencesExt
Trees == {"A", "B", "C"}
Files == {"a.ftl", "b.ftl", "c.ftl"}
\* reference files; C keeps them elsewhere
RefsOf(refs) == IF refs = "C" THEN {"a.ftl", "b.ftl", "c.ftl"} ELSE {"a.ftl", "b.ftl"}
\* a configuration lists fewer locales than there are directories
LocalesOf(via) == IF via = "config" THEN {"fr", "de"} ELSE {"fr", "de", "sl"}
Fact(tree, lc, path, id, v) == [tree |-> tree, lc |-> lc, path |-> path, id |-> id, v |-> v]
At(fs, tree, lc, path, id) == {f \in fs : f.tree = tree /\ f.lc = lc /\ f.path = path /\ f.id = id}
\* where to: a tree, how it is told, and whose references
NoPaths == [tree |-> "", via |-> "", refs |-> ""]
Dir(t) == [tree |-> t, via |-> "root", refs |-> t]
Cfg(t) == [tree |-> t, via |-> "config", refs |-> t]
\* of a command: its paths, or the status it is refused with
CmdPaths(c) ==
  IF c.cfg # "" THEN
    IF c.root # "" THEN [p |-> NoPaths, status |-> {2}]
    ELSE IF c.cfg \in Trees THEN [p |-> Cfg(c.cfg), status |-> {}]
    ELSE IF c.cfg = "bad" THEN [p |-> NoPaths, status |-> {2}]
    ELSE [p |-> NoPaths, status |-> {1, 2}]
  ELSE IF c.root = "" THEN [p |-> NoPaths, status |-> {}]
  ELSE IF c.root \notin Trees THEN [p |-> NoPaths, status |-> {2}]
  ELSE IF c.ref THEN [p |-> [Dir(c.root) EXCEPT !.refs = "C"], status |-> {}]
  \* the references of C are not to be found in it
  ELSE IF c.root = "C" THEN [p |-> NoPaths, status |-> {2}]
  ELSE [p |-> Dir(c.root), status |-> {}]
OwnPaths(o) == CASE o = "" -> NoPaths [] o \in {"dirA", "dirB"} -> Dir(IF o = "dirA" THEN "A" ELSE "B") [] OTHER -> Cfg(IF o = "cfgA" THEN "A" ELSE "B")
\* ---------------------------------------------------------------- applying
\* one entry of one file: the facts, and errors
Create(st, tree, lc, path, x) ==
  LET from == At(st.fs, tree, lc, IF x.ref = "" THEN path ELSE x.ref, x.src)
      new == CASE x.fn = "const" -> {x.src} [] x.fn = "copy" -> {f.v : f \in from} [] OTHER -> {}
  IN IF st.err # {} \/ At(st.fs, tree, lc, path, x.id) # {} THEN st
     ELSE [fs |-> st.fs \cup {Fact(tree, lc, path, x.id, v) : v \in new},
           err |-> CASE x.fn = "value_error" -> {1, 2} [] x.fn = "key_error" -> {1} [] OTHER -> {}, bad |-> st.bad \/ x.fn = "unwritable"]
OneFile(fs, tree, lc, path, ents) ==
  LET out == FoldLeft(LAMBDA s, x : Create(s, tree, lc, path, x), [fs |-> fs, err |-> {}, bad |-> FALSE], ents) IN
  IF out.err # {} THEN [new |-> {}, err |-> out.err] ELSE IF out.bad THEN [new |-> {}, err |-> {1, 2}] ELSE [new |-> out.fs \ fs, err |-> {}]
\* one path in all locales; where one of them fails the others may or may not have been written
OnePath(st, p, m) ==
  IF st.err # {} THEN st
  ELSE IF m.path \notin RefsOf(p.refs) THEN [st EXCEPT !.err = {2}]
  ELSE LET r == [lc \in LocalesOf(p.via) |-> OneFile(st.fs, p.tree, lc, m.path, m.ents)]
           err == UNION {r[lc].err : lc \in LocalesOf(p.via)}
       IN IF err = {} THEN [st EXCEPT !.fs = @ \cup UNION {r[lc].new : lc \in LocalesOf(p.via)}]
          ELSE [st EXCEPT !.err = err, !.maybe = {r[lc].new : lc \in LocalesOf(p.via)} \ {{}}]
OneMigration(st, cp, dry, m) ==
  LET p == IF cp # NoPaths THEN cp ELSE OwnPaths(m.own) IN
  IF st.err # {} THEN st
  ELSE IF p = NoPaths THEN [st EXCEPT !.err = {2}]
  ELSE LET out == FoldLeft(LAMBDA s, x : OnePath(s, p, x), st, m.map)
       IN IF dry THEN [st EXCEPT !.err = out.err] ELSE out
\* ---------------------------------------------------------------- the command
Broken(s) == s.kind # "ok" \/ \E i \in 1..Len(s.migs) : s.migs[i].own = "nowhere"
AllMigs(c) == FlattenSeq([i \in 1..Len(c.scripts) |-> c.scripts[i].migs])
\* facts, what may have been written besides, and the status
RunCmd(fs, c) ==
  LET cp == CmdPaths(c)  n == Len(c.scripts) IN
  IF cp.status # {} THEN [fs |-> fs, maybe |-> {}, status |-> cp.status]
  ELSE IF (\E i \in 1..n : Broken(c.scripts[i])) \/ Len(AllMigs(c)) = 0 THEN [fs |-> fs, maybe |-> {}, status |-> {2}]
  ELSE LET out == FoldLeft(LAMBDA s, m : OneMigration(s, cp.p, c.dry, m), [fs |-> fs, maybe |-> {}, err |-> {}], AllMigs(c))
       IN [fs |-> out.fs, maybe |-> out.maybe, status |-> IF out.err = {} THEN {0} ELSE out.err]
\* ---------------------------------------------------------------- verdict
If(c, n) == IF c THEN {} ELSE {n}
StepVerdict(before, c, got) ==
  LET w == RunCmd(before, c)
      is == ToSet(got.facts)
      more == is \ w.fs
  IN If(got.status \in w.status, "status")
     \cup If(w.fs \subseteq is, IF before \subseteq is THEN "not_applied" ELSE "lost")
     \cup If(more \subseteq UNION w.maybe /\ \A g \in w.maybe : g \cap more \in {{}, g}, IF c.dry THEN "dry_run_writes" ELSE "also_written")
     \cup If(~got.stray, "other_files")
CmdVerdict(e) ==
  IF e.op = "idle" THEN {}
  ELSE UNION {StepVerdict(IF i = 1 THEN ToSet(e.start) ELSE ToSet(e.got[i - 1].facts), e.cmds[i], e.got[i]) : i \in 1..Len(e.cmds)}
=============================================================================
