------------------------------- MODULE Config -------------------------------
(* C11: config files map reference files to target paths and back.           *)
(* Paths are strings (sequences of code points) below one directory, which   *)
(* is the empty string.                                                      *)
EXTENDS AndroidLocale
Sl == 47
Star == 42
DotC == 46
\* ---------------------------------------------------------------- paths
DotDot == <<DotC, DotC>>
Segs(s) == FoldLeft(LAMBDA st, x : IF x = <<>> \/ x = <<DotC>> THEN st
                                   ELSE IF x = DotDot /\ st # <<>> /\ st[Len(st)] # DotDot THEN SubSeq(st, 1, Len(st) - 1) ELSE Append(st, x), <<>>, Split(s, Sl))
Norm(s) == JoinWith(Segs(s), <<Sl>>)
JoinP(a, b) == Norm(a \o <<Sl>> \o b)
DirOf(s) == LET k == SelectLastInSeq(s, LAMBDA c : c = Sl) IN SubSeq(s, 1, IF k = 0 THEN 0 ELSE k - 1)
PotEnd == <<46, 112, 111, 116>>
PoEnd == <<46, 112, 111>>
NoPot(s) == IF EndsWith(s, PotEnd) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* ------------------------------------------------------------- patterns
WordC == Alpha \cup Digit \cup {95}
Lit(s) == [k |-> "lit", s |-> s]
WithLit(its, c) == IF its # <<>> /\ its[Len(its)].k = "lit" THEN [its EXCEPT ![Len(its)].s = Append(@, c)] ELSE Append(its, Lit(<<c>>))
RECURSIVE Tok(_, _, _)
Tok(s, i, its) ==
  IF i > Len(s) THEN its
  ELSE IF s[i] = Star
  THEN IF At(s, i + 1) # Star THEN Tok(s, i + 1, Append(its, [k |-> "one", s |-> <<Star>>]))
       ELSE IF At(s, i + 2) # Sl THEN Tok(s, i + 2, Append(its, [k |-> "all", s |-> <<>>]))
       ELSE IF At(s, i + 3) = Star THEN Tok(s, i + 4, Append(its, [k |-> "all", s |-> <<>>]))
       ELSE Tok(s, i + 3, Append(its, [k |-> "dirs", s |-> <<>>]))
  ELSE IF s[i] = 123
  THEN LET e == IndexFrom(s, 125, i) IN
       IF e > i + 1 /\ All(SubSeq(s, i + 1, e - 1), LAMBDA c : c \in WordC) THEN Tok(s, e + 1, Append(its, [k |-> "var", s |-> SubSeq(s, i + 1, e - 1)]))
       ELSE Tok(s, i + 1, WithLit(its, s[i]))
  ELSE Tok(s, i + 1, WithLit(its, s[i]))
Tokens(s) == Tok(s, 1, <<>>)
IsStar(it) == it.k \in {"one", "all", "dirs"}
Unvar(its) == [j \in 1..Len(its) |-> IF its[j].k = "var" THEN Lit(<<123>> \o its[j].s \o <<125>>) ELSE its[j]]
Kinds(its) == LET st == SelectSeq(its, IsStar) IN [j \in 1..Len(st) |-> st[j].k]
HasStar(s) == \E j \in 1..Len(s) : s[j] = Star
Stars(s) == Cardinality({j \in 1..Len(s) : s[j] = Star})
\* what a variable part may stand for; files being looked for, it does not stand for hidden ones
MayBe(it, s, p, n, g) ==
  LET v == SubSeq(s, p, p + n - 1)
      start(q) == q = 1 \/ s[q - 1] = Sl
  IN /\ (it.k \in {"one", "var"} => \A j \in 1..n : v[j] # Sl)
     /\ (it.k = "dirs" => n = 0 \/ v[n] = Sl)
     /\ (g => /\ ~(start(p) /\ n > 0 /\ v[1] = DotC) /\ (\A j \in 1..n - 1 : ~(v[j] = Sl /\ v[j + 1] = DotC))
              /\ (it.k \in {"one", "all"} => ~(start(p + n) /\ At(s, p + n) = DotC)))
RECURSIVE Mt(_, _, _, _, _)
\* the sequences of values of the variable parts
Mt(its, i, s, p, g) ==
  IF i > Len(its) THEN IF p = Len(s) + 1 THEN {<<>>} ELSE {}
  ELSE IF its[i].k = "lit"
  THEN IF StartsWith(From(s, p), its[i].s) THEN Mt(its, i + 1, s, p + Len(its[i].s), g) ELSE {}
  ELSE UNION {{<<SubSeq(s, p, p + n - 1)>> \o r : r \in Mt(its, i + 1, s, p + n, g)} : n \in {m \in 0..Len(s) + 1 - p : MayBe(its[i], s, p, m, g)}}
Same(its, a) == LET w == SelectSeq(its, LAMBDA it : it.k # "lit") IN \A i, j \in 1..Len(w) : w[i].k = "var" /\ w[j].k = "var" /\ w[i].s = w[j].s => a[i] = a[j]
Matches(its, s, g) == {a \in Mt(its, 1, s, 1, g) : Same(its, a)}
StarVals(its, a) == LET w == SelectSeq(its, LAMBDA it : it.k # "lit")
                        ix == SelectSeq([j \in 1..Len(w) |-> j], LAMBDA j : IsStar(w[j])) IN [j \in 1..Len(ix) |-> a[ix[j]]]
VarVals(its, a) == LET w == SelectSeq(its, LAMBDA it : it.k # "lit") IN {<<w[j].s, a[j]>> : j \in {i \in 1..Len(w) : w[i].k = "var"}}
\* values for the stars, in order
PutStars(its, vs) ==
  FoldLeft(LAMBDA st, it : IF IsStar(it) THEN [n |-> st.n + 1, s |-> st.s \o vs[st.n + 1]]
                           ELSE [st EXCEPT !.s = @ \o (IF it.k = "var" THEN <<123>> \o it.s \o <<125>> ELSE it.s)], [n |-> 0, s |-> <<>>], its).s
\* variables for which there is a value (a set of pairs)
Fill(s, m) ==
  LET its == Tokens(s) IN
  Concat([j \in 1..Len(its) |-> IF its[j].k = "lit" THEN its[j].s
            ELSE IF its[j].k = "var" THEN (IF \E p \in m : p[1] = its[j].s THEN (CHOOSE p \in m : p[1] = its[j].s)[2] ELSE <<123>> \o its[j].s \o <<125>>)
            ELSE <<Star>>])
FillAll(s, m) == LET ss == Split(s, Star) IN JoinWith([j \in 1..Len(ss) |-> Fill(ss[j], m)], <<Star>>)
L10nBase == <<108, 49, 48, 110, 95, 98, 97, 115, 101>>
BasePre == <<123>> \o L10nBase \o <<125, 47>>
NoBase(s) == IF StartsWith(s, BasePre) THEN From(s, Len(BasePre) + 1) ELSE s
\* ------------------------------------------------------------- configs
Pairs(m) == {<<x.k, x.v>> : x \in Range(m)}
CfgAt(cfgs, p) == cfgs[SelectInSeq(cfgs, LAMBDA c : c.path = p)]
CfgBase(c) == JoinP(DirOf(c.path), c.base)
Included(c) == [j \in 1..Len(c.includes) |-> JoinP(CfgBase(c), FillAll(c.includes[j], Pairs(c.env)))]
RECURSIVE Load(_, _, _, _)
\* configs in order, each once, with those it is included from
Load(cfgs, todo, seen, out) ==
  IF todo = <<>> THEN out
  ELSE LET t == Head(todo) IN
       IF t.path \in seen THEN Load(cfgs, Tail(todo), seen, out)
       ELSE LET c == CfgAt(cfgs, t.path)
                me == t.anc \cup {Len(out) + 1}
                inc == Included(c)
            IN Load(cfgs, [j \in 1..Len(inc) |-> [path |-> inc[j], anc |-> me]] \o Tail(todo), seen \cup {t.path}, Append(out, [cfg |-> c, anc |-> me]))
Loaded(cfgs) == Load(cfgs, <<[path |-> cfgs[1].path, anc |-> {}]>>, {}, <<>>)
RefOf(c, i) == JoinP(CfgBase(c), c.paths[i].ref)
L10nOf(c, i) == FillAll(c.paths[i].l10n, Pairs(c.env))
Mismatch(c) == \E i \in 1..Len(c.paths) : HasStar(c.paths[i].ref) /\ Stars(RefOf(c, i)) # Stars(L10nOf(c, i))
\* reference files and their targets, by entry
Found(c, files, force) ==
  UNION {LET p == c.paths[i]  r == RefOf(c, i)  l == L10nOf(c, i) IN
         IF ~HasStar(r) THEN {[i |-> i, ref |-> r, tgts |-> {l}, lg |-> p.lg, locs |-> Range(p.locales)]}
         ELSE LET its == Unvar(Tokens(r))  tl == Tokens(l) IN
              {[i |-> i, ref |-> f, tgts |-> {PutStars(tl, StarVals(its, a)) : a \in Matches(its, f, FALSE)}, lg |-> p.lg, locs |-> Range(p.locales)] :
                 f \in {g \in files : Matches(its, g, TRUE) # {}} \cup {g \in force : Matches(its, g, FALSE) # {}}}
         : i \in 1..Len(c.paths)}
Tgt(d) == CHOOSE t \in d.tgts : TRUE
Ambiguous(ds) == \E d \in ds : Cardinality(d.tgts) > 1
\* later entries override the locales of earlier ones
Eff(ds) == {d \in ds : ~\E o \in ds : o.i > d.i /\ o.ref = d.ref /\ Tgt(o) = Tgt(d)}
FirstPos(ds, d) == CHOOSE i \in {o.i : o \in {x \in ds : x.ref = d.ref /\ Tgt(x) = Tgt(d)}} : \A o \in ds : o.ref = d.ref /\ Tgt(o) = Tgt(d) => i <= o.i
\* the target path, its locale variables left in
Path(base, t, fm) == LET f == FillAll(NoBase(t), fm) IN JoinP(base, NoPot(f))
InLocale(path, lm) == Norm(Fill(path, lm))
\* the pattern of target paths: the base is as it is
Pattern(base, t) ==
  LET s == Segs(NoPot(NoBase(t)))
      up == Cardinality({j \in 1..Len(s) : s[j] = DotDot})
      b == Segs(base)
      left == SubSeq(b, 1, Len(b) - up)
      pre == IF left = <<>> THEN <<>> ELSE <<Lit(JoinWith(left, <<Sl>>) \o <<Sl>>)>>
  IN pre \o Tokens(JoinWith(SubSeq(s, up + 1, Len(s)), <<Sl>>))
If(c, n) == IF c THEN {} ELSE {n}
None_ == [some |-> FALSE, path |-> <<>>, locs |-> {}]
\* a node: base and locales now in effect, entries and what they found
Node(e, files, force, n) ==
  LET c == n.cfg  ds == Found(c, files, force)  amb == Ambiguous(ds) IN
  [cfg |-> c, anc |-> n.anc, base |-> IF e.setbase THEN e.newbase ELSE CfgBase(c), lg |-> IF e.setloc THEN TRUE ELSE c.lg, locs |-> Range(IF e.setloc THEN e.newloc ELSE c.locales),
   ds |-> ds, eff |-> IF amb THEN {} ELSE Eff(ds), amb |-> amb]
Keys(n) == {d.ref : d \in n.ds}
AllKeys(ns, fm) == UNION {{[ref |-> d.ref, t |-> Path(ns[i].base, Tgt(d), fm), locs |-> IF d.locs # {} THEN d.locs ELSE ns[i].locs] : d \in ns[i].eff} : i \in DOMAIN ns}
Of(n, ref) == LET a == {d \in n.eff : d.ref = ref} IN IF a # {} \/ ~EndsWith(ref, PoEnd) THEN a ELSE {d \in n.eff : d.ref = Append(ref, 116)}
\* what a config answers: a set of possible answers, empty if it has none
Answer(n, ref, haslc, lc, fm, lm) ==
  LET a == Of(n, ref)
      none == {d \in a : ~d.lg}
      listing == {d \in a : d.lg /\ lc \in d.locs}
      valid == {d \in a : d.lg /\ (n.locs = {} \/ d.locs \cap n.locs # {})}
      last == {d \in valid : (\A o \in valid : o.i <= d.i) \/ (\A o \in valid : FirstPos(n.ds, o) <= FirstPos(n.ds, d))}
      ans(d, ls) == [some |-> TRUE, path |-> IF haslc THEN InLocale(Path(n.base, Tgt(d), fm), lm) ELSE Path(n.base, Tgt(d), fm), locs |-> ls]
  IN IF haslc THEN {ans(d, {lc}) : d \in IF listing # {} THEN listing ELSE none}
     ELSE IF none # {} THEN {ans(d, n.locs) : d \in none}
     ELSE {ans(d, IF n.locs = {} THEN d.locs ELSE d.locs \cap n.locs) : d \in last}
Open(ns, i, haslc, lc) == haslc => \A j \in ns[i].anc : ns[j].locs = {} \/ lc \in ns[j].locs
Answers(ns, ref, haslc, lc, fm, lm) ==
  LET k == SelectInSeq([i \in 1..Len(ns) |-> i], LAMBDA i : Open(ns, i, haslc, lc) /\ Answer(ns[i], ref, haslc, lc, fm, lm) # {}) IN
  IF k = 0 THEN {None_} ELSE Answer(ns[k], ref, haslc, lc, fm, lm)
\* references of a path: by entry, the ways it matches, and the references these lead to
Finds(n, p) ==
  {LET t == L10nOf(n.cfg, i)  its == Pattern(n.base, t)  ms == Matches(its, p, FALSE)  rt == Unvar(Tokens(RefOf(n.cfg, i)))
       ref(a) == Norm(PutStars(rt, StarVals(its, a)))
       ks == Keys(n)
   IN [n |-> Cardinality(ms),
       refs |-> {[ref |-> r, vars |-> VarVals(its, a)] : r \in ks, a \in {a \in ms : TRUE}} \cap
                ({[ref |-> ref(a), vars |-> VarVals(its, a)] : a \in ms} \cup {[ref |-> Append(ref(a), 116), vars |-> VarVals(its, a)] : a \in {b \in ms : EndsWith(ref(b), PoEnd)}})]
   : i \in 1..Len(n.cfg.paths)}
Builtin(lc) == {<< <<108, 111, 99, 97, 108, 101>>, lc>>, << <<97, 110, 100, 114, 111, 105, 100, 95, 108, 111, 99, 97, 108, 101>>, ToAndroid(lc)>>}
LocMap(x) == {p \in Builtin(x.lc) : ~\E q \in Pairs(x.map) : q[1] = p[1]} \cup Pairs(x.map)
ConfigVerdict(e) ==
  IF e.op = "idle" THEN {}
  ELSE
  LET files == Range(e.files)  force == Range(e.force)
      ld == Loaded(e.cfgs)
      bad == \E i \in 1..Len(ld) : Mismatch(ld[i].cfg)
  IN IF e.out.k # "ok" THEN If(bad /\ e.out.k = "exc" /\ e.out.type = "ValueError", "raised")
     ELSE IF bad THEN {"wildcards_accepted"}
     ELSE
     LET ns == [i \in 1..Len(ld) |-> Node(e, files, force, ld[i])]
         amb == \E i \in DOMAIN ns : ns[i].amb
         fm == Pairs(e.fm)
         keys == IF amb THEN {} ELSE AllKeys(ns, fm)
         o == e.out
     IN If(o.cfgs = [i \in 1..Len(ld) |-> ld[i].cfg.path], "configs")
        \cup If(Range(o.refs) = UNION {Keys(ns[i]) : i \in DOMAIN ns}, "references")
        \cup If(o.base = ns[1].base /\ o.root = CfgBase(ld[1].cfg) /\ Range(o.locales) = ns[1].locs, "properties")
        \cup (IF amb
              THEN If({x.ref : x \in Range(o.all)} = UNION {Keys(ns[i]) : i \in DOMAIN ns}
                      /\ \A x \in Range(o.all) : \E i \in DOMAIN ns : \E d \in ns[i].ds : d.ref = x.ref /\ x.t \in {Path(ns[i].base, t, fm) : t \in d.tgts}, "listing")
              ELSE If({<<x.ref, x.t>> : x \in Range(o.all)} = {<<x.ref, x.t>> : x \in keys}, "listing")
                   \cup If(\A x \in Range(o.all) : Range(x.locs) = UNION {k.locs : k \in {y \in keys : y.ref = x.ref /\ y.t = x.t}}, "listed_locales")
                   \cup If(Range(o.alllocs) = UNION {ns[i].locs \cup UNION {d.locs : d \in ns[i].eff} : i \in DOMAIN ns}, "all_locales")
                   \cup If(\A x \in Range(o.targets) : [some |-> x.some, path |-> x.path, locs |-> Range(x.locs)] \in Answers(ns, x.ref, x.haslc, x.lc, fm, IF x.haslc THEN LocMap(x) ELSE {}), "target"))
        \cup If(\A x \in Range(o.filled) : x.path = InLocale(x.t, LocMap(x)), "filled_target")
        \cup If(\A x \in Range(o.finds) :
                  LET fs == UNION {Finds(ns[i], x.p) : i \in DOMAIN ns} IN
                  IF x.some THEN \E f \in fs : [ref |-> x.ref, vars |-> Pairs(x.vars)] \in f.refs
                  ELSE \A f \in fs : f.refs = {} \/ f.n > 1, "find_reference")
=============================================================================
