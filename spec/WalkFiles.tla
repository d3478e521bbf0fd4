------------------------------ MODULE WalkFiles -----------------------------
(* C13: which files of a tree a walk lists.  Paths and rules are code point  *)
(* sequences; a tree is its set of directories and files, as paths relative  *)
(* to the root.                                                              *)
EXTENDS Text, FiniteSetsExt, Functions
Slash == 47
Star == 42
Quest == 63
Bang == 33
\* glob match of p from i against s from j, to the end of both
RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = Star
  THEN IF At(p, i + 1) = Star
       THEN \* ** matches anything; a slash after it may match nothing
            LET k == IF At(p, i + 2) = Slash THEN i + 3 ELSE i + 2 IN \E n \in j..Len(s) + 1 : Glob(p, k, s, n)
       ELSE \E n \in j..Len(s) + 1 : (\A q \in j..n - 1 : s[q] # Slash) /\ Glob(p, i + 1, s, n)
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF p[i] = Quest THEN s[j] # Slash /\ Glob(p, i + 1, s, j + 1)
  ELSE p[i] = s[j] /\ Glob(p, i + 1, s, j + 1)
\* a rule as written in the file -> [neg, dirOnly, anchored, pat]; blank lines and # comments are no rules
RuleOf(line) ==
  LET l1 == TrimRight(line, PyWhite)
      neg == StartsWith(l1, <<Bang>>)
      l2 == IF neg \/ StartsWith(l1, <<92, Bang>>) THEN Tail(l1) ELSE l1
      dir == EndsWith(l2, <<Slash>>)
      l3 == IF dir THEN TrimRight(l2, {Slash}) ELSE l2
      anch == StartsWith(l3, <<Slash>>)
      pat == IF anch THEN Tail(l3) ELSE l3
  IN [neg |-> neg, dirOnly |-> dir, anchored |-> anch, inner |-> \E i \in 1..Len(pat) : pat[i] = Slash, pat |-> pat]
IsRule(line) == LET t == TrimRight(line, PyWhite) IN t # <<>> /\ t[1] # 35
Hidden == [neg |-> FALSE, dirOnly |-> FALSE, anchored |-> FALSE, inner |-> FALSE, pat |-> <<46, Star>>]
\* A rule without a leading slash matches the end of the path from any directory boundary; for a
\* directory, one with an inner slash only from the root.  (For files git also anchors the latter;
\* gitignorant, which the implementation relies on, does not: a named deviation from git.)
Matches(r, path, isDir) ==
  /\ (r.dirOnly => isDir)
  /\ IF r.anchored \/ (isDir /\ r.inner)
     THEN Glob(r.pat, 1, path, 1)
     ELSE \E i \in {1} \cup {k + 1 : k \in {n \in 1..Len(path) : path[n] = Slash}} : Glob(r.pat, 1, path, i)
\* the last matching rule decides
Ignored(rules, path, isDir) ==
  LET k == SelectLastInSeq(rules, LAMBDA r : Matches(r, path, isDir)) IN k # 0 /\ ~rules[k].neg
Rules(lines) == <<Hidden>> \o LET ls == SelectSeq(lines, IsRule) IN [i \in 1..Len(ls) |-> RuleOf(ls[i])]
\* the proper ancestors of a path strictly below the directory start (<<>>: the root)
Ancestors(path, start) == {SubSeq(path, 1, i - 1) : i \in {k \in (IF start = <<>> THEN 1 ELSE Len(start) + 2)..Len(path) : path[k] = Slash}}
Under(path, start) == start = <<>> \/ StartsWith(path, start \o <<Slash>>)
Listed(rules, files, starts) ==
  {f \in files : ~Ignored(rules, f, FALSE) /\ \E s \in starts : Under(f, s) /\ \A a \in Ancestors(f, s) : ~Ignored(rules, a, TRUE)}
WalkVerdict(ev) ==
  IF ev.rootok /\ ev.out.k # "ok" THEN {"raised"}
  ELSE IF ~ev.rootok THEN IF ev.out.k = "exc" /\ ev.out.ve THEN {} ELSE {"bad_root_accepted"}
  ELSE LET exp == Listed(Rules(ev.lines), Range(ev.files), Range(ev.starts))  got == Range(ev.out.paths) IN
       (IF Cardinality(got) = Len(ev.out.paths) THEN {} ELSE {"listed_twice"})
       \cup (IF exp \subseteq got THEN {} ELSE {"file_missing"})
       \cup (IF got \subseteq exp THEN {} ELSE {"ignored_file_listed"})
=============================================================================
