--------------------------- MODULE MC_MigrateCmd ----------------------------
(* A file tree changed by commands, one after another: each of them with     *)
(* some paths and scripts of a catalogue.                                    *)
EXTENDS MigrateCmd, TLC, Json, IOUtils
CONSTANTS MaxScripts, MaxCmds
VARIABLES fs, cmds, last
Const(id, v) == [id |-> id, fn |-> "const", ref |-> "", src |-> v]
Copy(id, ref, src) == [id |-> id, fn |-> "copy", ref |-> ref, src |-> src]
Fails(id, fn) == [id |-> id, fn |-> fn, ref |-> "", src |-> ""]
M(own, map) == [own |-> own, map |-> map]
P(path, ents) == [path |-> path, ents |-> ents]
Script(kind, migs) == [kind |-> kind, migs |-> migs]
N1 == M("", <<P("a.ftl", <<Const("n1", "New")>>)>>)
Scripts == <<
  Script("ok", <<N1>>),
  Script("ok", <<M("", <<P("b.ftl", <<Copy("n2", "a.ftl", "n1")>>)>>)>>),
  Script("ok", <<M("dirA", <<P("a.ftl", <<Const("n1", "Own")>>)>>), M("cfgB", <<P("b.ftl", <<Copy("n2", "a.ftl", "x")>>)>>)>>),
  Script("ok", <<M("", <<P("a.ftl", <<Copy("n3", "", "n2"), Const("n2", "Two"), Copy("n4", "", "n2")>>), P("b.ftl", <<Copy("n1", "a.ftl", "n2")>>)>>)>>),
  Script("ok", <<M("", <<P("c.ftl", <<Const("n1", "C")>>)>>)>>),
  Script("ok", <<N1, M("", <<P("a.ftl", <<Const("n2", "Z")>>), P("b.ftl", <<Fails("y", "key_error"), Const("n4", "V")>>)>>)>>),
  Script("ok", <<M("", <<P("a.ftl", <<Const("n5", "Z"), Fails("n1", "value_error")>>)>>)>>),
  Script("ok", <<M("dirB", <<P("b.ftl", <<Fails("n6", "unwritable")>>)>>)>>),
  Script("ok", <<>>),
  Script("raises", <<N1>>),
  Script("missing", <<>>),
  Script("other", <<>>),
  Script("ok", <<N1, M("nowhere", <<>>)>>)>>
Start == {Fact(t, lc, p, "x", t \o lc \o p) : t \in Trees, lc \in {"fr", "de", "sl"}, p \in {"a.ftl"}}
         \cup {Fact(t, "fr", "b.ftl", "y", t \o "Y") : t \in Trees} \cup {Fact(t, "de", "a.ftl", "n1", "Old") : t \in {"A", "C"}}
Roots == {[cfg |-> "", root |-> "", ref |-> FALSE], [cfg |-> "A", root |-> "", ref |-> FALSE], [cfg |-> "", root |-> "A", ref |-> FALSE], [cfg |-> "", root |-> "B", ref |-> FALSE], [cfg |-> "", root |-> "C", ref |-> TRUE],
          [cfg |-> "", root |-> "C", ref |-> FALSE], [cfg |-> "", root |-> "A", ref |-> TRUE], [cfg |-> "B", root |-> "A", ref |-> FALSE], [cfg |-> "gone", root |-> "", ref |-> FALSE], [cfg |-> "bad", root |-> "", ref |-> FALSE],
          [cfg |-> "B", root |-> "", ref |-> TRUE], [cfg |-> "", root |-> "gone", ref |-> FALSE]}
Picks == UNION {[1..n -> 1..Len(Scripts)] : n \in 1..MaxScripts}
Cmds == {[cfg |-> r.cfg, root |-> r.root, ref |-> r.ref, dry |-> d, scripts |-> [i \in 1..Len(s) |-> Scripts[s[i]]]] : r \in Roots, d \in BOOLEAN, s \in Picks}
Init == fs = Start /\ cmds = <<>> /\ last = [before |-> Start, status |-> {0}, maybe |-> {}]
Next == Len(cmds) < MaxCmds /\ \E c \in Cmds : LET o == RunCmd(fs, c) IN
          /\ cmds' = Append(cmds, c)
          /\ \E g \in SUBSET o.maybe : fs' = o.fs \cup UNION g
          /\ last' = [before |-> fs, status |-> o.status, maybe |-> o.maybe]
Spec == Init /\ [][Next]_<<fs, cmds, last>>
Cmd == cmds[Len(cmds)]
\* nothing is lost, and no entry gets a second value
Keeps == Start \subseteq fs /\ last.before \subseteq fs
OneValue == \A f, g \in fs : f.tree = g.tree /\ f.lc = g.lc /\ f.path = g.path /\ f.id = g.id => f.v = g.v
DryKeeps == cmds # <<>> /\ Cmd.dry => fs = last.before
\* arguments are looked at first
RefusedKeeps == cmds # <<>> /\ ((Cmd.cfg # "" /\ Cmd.root # "") \/ \E i \in 1..Len(Cmd.scripts) : Broken(Cmd.scripts[i])) => fs = last.before /\ 0 \notin last.status
\* again, with nothing new
Again == cmds # <<>> /\ last.status = {0} /\ Len(Cmd.scripts) = 1 /\ Cmd.scripts[1] \in {Scripts[1], Scripts[2], Scripts[5]} => (~Cmd.dry => RunCmd(fs, Cmd).fs = fs)
\* a command of two scripts is a command for each
Split == cmds # <<>> /\ ~Cmd.dry /\ last.status = {0} /\ Len(Cmd.scripts) = 2 /\ (\A i \in 1..2 : Cmd.scripts[i].migs # <<>>) =>
           RunCmd(RunCmd(last.before, [Cmd EXCEPT !.scripts = <<@[1]>>]).fs, [Cmd EXCEPT !.scripts = <<@[2]>>]).fs = fs
\* only where it was told to
Within == cmds # <<>> => LET p == CmdPaths(Cmd).p IN p # NoPaths => \A f \in fs \ last.before : f.tree = p.tree /\ f.lc \in LocalesOf(p.via)
Emit == IOEnv.EMIT = "1" /\ cmds # <<>> /\ Len(cmds) = MaxCmds => PrintT("CASE " \o ToJson([cmds |-> cmds]))
=============================================================================
