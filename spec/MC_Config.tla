------------------------------ MODULE MC_Config -----------------------------
(* Configs grow by paths entries and trees by files.  The target of every    *)
(* listed reference in any of its locales leads back to the reference and    *)
(* the locale, and what is listed is what is answered.                       *)
EXTENDS Config, TLC, Json, IOUtils
CONSTANT MaxStep
VARIABLES p1, p2, files, n
En(r, l, g, ls) == [ref |-> r, l10n |-> l, lg |-> g, locales |-> ls]
lFr == <<102, 114>>
lDe == <<100, 101>>
Pool == { En(<<101, 110, 47, 97, 46, 102>>, <<123, 108, 111, 99, 97, 108, 101, 125, 47, 97, 46, 102>>, FALSE, <<>>), En(<<101, 110, 47, 42, 46, 102>>, <<123, 108, 49, 48, 110, 95, 98, 97, 115, 101, 125, 47, 123, 108, 111, 99, 97, 108, 101, 125, 47, 42, 46, 102>>, FALSE, <<>>), En(<<101, 110, 47, 42, 42>>, <<123, 108, 111, 99, 97, 108, 101, 125, 47, 42, 42>>, TRUE, <<lFr>>),
          En(<<101, 110, 47, 42, 42, 47, 42, 46, 112, 111, 116>>, <<120, 47, 123, 108, 111, 99, 97, 108, 101, 125, 47, 42, 42, 47, 42, 46, 112, 111, 116>>, FALSE, <<>>), En(<<101, 110, 47, 42, 47, 97, 46, 102>>, <<123, 118, 125, 47, 42, 47, 123, 108, 111, 99, 97, 108, 101, 125, 46, 102>>, TRUE, <<lDe>>), En(<<46, 47, 101, 110, 47, 97, 46, 102>>, <<123, 108, 111, 99, 97, 108, 101, 125, 47, 97, 46, 102>>, TRUE, <<lFr, lDe>>),
          En(<<101, 110, 47, 112, 46, 112, 111, 116>>, <<46, 46, 47, 123, 108, 111, 99, 97, 108, 101, 125, 47, 112, 46, 112, 111, 116>>, FALSE, <<>>), En(<<101, 110, 47, 42>>, <<123, 108, 111, 99, 97, 108, 101, 125>>, FALSE, <<>>), En(<<101, 110, 47, 97, 46, 102>>, <<123, 108, 111, 99, 97, 108, 101, 125, 47, 123, 108, 111, 99, 97, 108, 101, 125, 47, 97, 46, 102>>, TRUE, <<lDe>>) }
Files == {<<114, 47, 101, 110, 47, 97, 46, 102>>, <<114, 47, 101, 110, 47, 98, 46, 102>>, <<114, 47, 101, 110, 47, 120, 47, 97, 46, 102>>, <<114, 47, 101, 110, 47, 120, 47, 113, 46, 112, 111, 116>>, <<114, 47, 101, 110, 47, 112, 46, 112, 111, 116>>, <<114, 47, 101, 110, 47, 46, 104, 46, 102>>}
Cfg(path, base, ps, inc, lg, ls) == [path |-> path, base |-> base, lg |-> lg, locales |-> ls, env |-> <<[k |-> <<118>>, v |-> <<108, 49, 48, 110>>]>>, paths |-> ps, includes |-> inc]
Cfgs(a, b) == << Cfg(<<114, 47, 108, 46, 116, 111, 109, 108>>, <<46>>, a, <<<<99, 47, 123, 118, 125, 46, 116, 111, 109, 108>>>>, TRUE, <<lFr, lDe>>), Cfg(<<114, 47, 99, 47, 108, 49, 48, 110, 46, 116, 111, 109, 108>>, <<46, 46>>, b, <<<<108, 46, 116, 111, 109, 108>>, <<99, 47, 108, 49, 48, 110, 46, 116, 111, 109, 108>>>>, FALSE, <<>>) >>
Init == p1 = <<>> /\ p2 = <<>> /\ files = {} /\ n = 0
Next == /\ n < MaxStep /\ n' = n + 1
        /\ \/ \E x \in Pool : p1' = Append(p1, x) /\ UNCHANGED <<p2, files>>
           \/ \E x \in Pool : Len(p2) < 1 /\ p2' = Append(p2, x) /\ UNCHANGED <<p1, files>>
           \/ \E f \in Files \ files : files' = files \cup {f} /\ UNCHANGED <<p1, p2>>
Spec == Init /\ [][Next]_<<p1, p2, files, n>>
Ev(b) == [setbase |-> b, newbase |-> <<111, 47, 114>>, setloc |-> FALSE, newloc |-> <<>>]
Ld == Loaded(Cfgs(p1, p2))
Once == Len(Ld) = 2 /\ Ld[1].anc = {1} /\ Ld[2].anc = {1, 2}
Ok == \A i \in 1..2 : ~Mismatch(Ld[i].cfg)
Nodes(b) == [i \in 1..2 |-> Node(Ev(b), files, {}, Ld[i])]
Lm(lc) == LocMap([lc |-> lc, map |-> <<>>])
LocaleVar == <<123, 108, 111, 99, 97, 108, 101, 125>>
HasLocale(t) == \E i \in 1..Len(t) : StartsWith(From(t, i), LocaleVar)
LeadsBack == Ok => \A b \in BOOLEAN : LET ns == Nodes(b) IN \A i \in DOMAIN ns : \A d \in ns[i].eff : \A lc \in (IF d.locs # {} THEN d.locs ELSE {lFr, lDe}) :
   HasLocale(Tgt(d)) => LET p == InLocale(Path(ns[i].base, Tgt(d), {}), Lm(lc)) IN
     \E f \in Finds(ns[i], p) : \E r \in f.refs : << <<108, 111, 99, 97, 108, 101>>, lc >> \in r.vars /\ (r.ref = d.ref \/ NoPot(r.ref) = NoPot(d.ref))
Answered == Ok => \A b \in BOOLEAN : LET ns == Nodes(b)  ks == AllKeys(ns, {}) IN
   /\ \A k \in ks : LET a == Answers(ns, k.ref, FALSE, <<>>, {}, {}) IN a # {None_} /\ \A x \in a : \E y \in ks : y.ref = k.ref /\ y.t = x.path
   /\ \A k \in ks : \A lc \in k.locs : \A x \in Answers(ns, k.ref, TRUE, lc, {}, Lm(lc)) : x.some /\ x.locs = {lc} /\ \E y \in ks : y.ref = k.ref /\ InLocale(y.t, Lm(lc)) = x.path
   /\ Answers(ns, <<114, 47, 101, 110, 47, 110, 111, 110, 101>>, FALSE, <<>>, {}, {}) = {None_}
\* a base set only moves targets
Moved == Ok => LET x == Nodes(FALSE) y == Nodes(TRUE) IN \A i \in 1..2 : x[i].eff = y[i].eff
\* hidden files are found by name only; other files change nothing for those there
Hidden == \A i \in 1..2 : <<114, 47, 101, 110, 47, 46, 104, 46, 102>> \notin Keys(Nodes(FALSE)[i])
Others == [][Ok /\ p1 = p1' /\ p2 = p2' => \A i \in 1..2 : Found(Ld[i].cfg, files, {}) \subseteq Found(Ld[i].cfg, files', {})]_<<p1, p2, files, n>>
Emit == (IOEnv.EMIT = "1" /\ n = MaxStep) => PrintT("CASE " \o ToJson([cfgs |-> Cfgs(p1, p2), files |-> files]))
=============================================================================
