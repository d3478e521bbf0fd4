------------------------------ MODULE Discover ------------------------------
(* C12: which directory of a tree holds the reference files, which one the   *)
(* localizations, and which file belongs to which.  A path is the sequence   *)
(* of its names, a name a sequence of code points.                           *)
EXTENDS WalkFiles
Hyphen == 45
Under_ == 95
Dot == 46
IsLocale(s) ==
  LET n == Len(s)
      L(i) == i <= n /\ s[i] \in Lower  U(i) == i <= n /\ s[i] \in Upper  S(i) == i <= n /\ s[i] \in {Hyphen, Under_}
      Script(i) == S(i) /\ U(i + 1) /\ L(i + 2) /\ L(i + 3) /\ L(i + 4)
      Region(i) == S(i) /\ U(i + 1) /\ U(i + 2)
  IN \/ \E b \in {2, 3} : /\ \A i \in 1..b : L(i)
                          /\ \/ n = b \/ (n = b + 5 /\ Script(b + 1)) \/ (n = b + 3 /\ Region(b + 1)) \/ (n = b + 8 /\ Script(b + 1) /\ Region(b + 6))
     \/ s = <<99, 97, 45, 118, 97, 108, 101, 110, 99, 105, 97>> \/ s = <<106, 97, 45, 74, 80, 45, 109, 97, 99>>
LowerCase(s) == [i \in 1..Len(s) |-> IF s[i] \in Upper THEN s[i] + 32 ELSE s[i]]
Swap(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]
Variants(lc) == LET u == Swap(lc, Hyphen, Under_) IN {lc, LowerCase(lc), u, LowerCase(u)}
\* index of the source locale a directory is named after, or 0
Score(srcs, name) == SelectInSeq(srcs, LAMBDA lc : name \in Variants(lc))
Within(d, p) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
IsHidden(p, start) == \E i \in Len(start) + 1..Len(p) : At(p[i], 1) = Dot
Ext(name) == LET k == SelectLastInSeq(name, LAMBDA c : c = Dot) IN IF k <= 1 \/ SelectInSeq(name, LAMBDA c : c # Dot) > k THEN <<>> ELSE From(name, k)
PotExt == <<46, 112, 111, 116>>
L10nExts == { <<46, 100, 116, 100>>, <<46, 102, 116, 108>>, <<46, 105, 110, 99>>, <<46, 105, 110, 105>>, <<46, 106, 115, 111, 110>>, <<46, 112, 114, 111, 112, 101, 114, 116, 105, 101, 115>>,
              <<46, 112, 111>>, PotExt, <<46, 120, 108, 102>>, <<46, 120, 108, 105, 102, 102>>, <<46, 120, 109, 108>> }
Roots(t) == {t.root} \cup (IF t.hasref /\ t.refroot # <<>> /\ ~Within(t.root, t.refroot) THEN {t.refroot} ELSE {})
\* seen when walking from a root
Seen(t, p) == \E r \in Roots(t) : Within(r, p) /\ ~IsHidden(p, r)
HasExt(t, d, exts) == \E f \in t.files : Within(d, Parent(f)) /\ Seen(t, f) /\ Ext(Name(f)) \in exts
Named(t) == {d \in t.dirs : Seen(t, d) /\ d \notin Roots(t) /\ Score(t.srcs, Name(d)) > 0}
Candidates(t) == IF t.hasref THEN {d \in Named(t) : Within(t.refroot, d)} \cup {t.refroot} ELSE Named(t)
CandScore(t, d) == IF d \in Named(t) THEN Score(t.srcs, Name(d)) ELSE Len(t.srcs) + 1
Pool(t) == LET c == Candidates(t)
               p == {d \in c : HasExt(t, d, {PotExt})}
           IN IF p # {} THEN p ELSE {d \in c : HasExt(t, d, L10nExts)}
\* the first by priority of the locale, then by depth
References(t) == LET p == Pool(t) IN
  {d \in p : \A o \in p : CandScore(t, d) < CandScore(t, o) \/ (CandScore(t, d) = CandScore(t, o) /\ Len(d) <= Len(o))}
LocaleDirs(t, b) == {d \in t.dirs : Len(d) = Len(b) + 1 /\ Within(b, d) /\ Score(t.srcs, Name(d)) = 0 /\ IsLocale(Name(d))}
Bases(t, ref) ==
  LET all == {b \in t.dirs \cup {t.root} : Within(t.root, b) /\ ~IsHidden(b, t.root) /\ ~Within(ref, b) /\ LocaleDirs(t, b) # {}}
      full == {b \in all : \E f \in t.files : Within(b, Parent(f)) /\ Parent(f) # b /\ Seen(t, f) /\ Ext(Name(f)) \in L10nExts}
      p == IF full # {} THEN full ELSE all
      n == [b \in p |-> Cardinality(LocaleDirs(t, b))]
  IN {b \in p : \A o \in p : n[b] >= n[o]}
Rel(d, p) == SubSeq(p, Len(d) + 1, Len(p))
RefFiles(t, ref) ==
  LET fs == {f \in t.files : Within(ref, f)}
      rel == [f \in fs |-> JoinWith(Rel(ref, f), <<Slash>>)]
      ls == Listed(Rules(t.lines), {rel[f] : f \in fs}, {<<>>})
  IN {f \in fs : rel[f] \in ls} \cup {f \in t.force : Within(ref, f)}
Locales(t, b) == {Swap(Name(d), Under_, Hyphen) : d \in LocaleDirs(t, b)}
\* ties: hyphens
SepOf(t, b) == LET ns == {Name(d) : d \in LocaleDirs(t, b)}
                   with(c) == Cardinality({x \in ns : \E i \in 1..Len(x) : x[i] = c})
               IN IF with(Under_) > with(Hyphen) THEN Under_ ELSE Hyphen
\* templates become localizations
PoName(p) == IF EndsWith(Name(p), PotExt) THEN [p EXCEPT ![Len(p)] = SubSeq(@, 1, Len(@) - 1)] ELSE p
TargetRel(ref, f) == PoName(Rel(ref, f))
LocaleDir(t, b, lc) ==
  LET u == Swap(lc, Hyphen, Under_) IN
  IF \A i \in 1..Len(lc) : lc[i] # Hyphen THEN lc
  ELSE IF Append(b, lc) \in t.dirs THEN lc ELSE IF SepOf(t, b) = Under_ \/ Append(b, u) \in t.dirs THEN u ELSE lc
TargetOf(t, ref, b, f, lc) == b \o <<LocaleDir(t, b, lc)>> \o TargetRel(ref, f)
\* references of a path below the base
RefsOf(t, ref, b, refs, p) ==
  IF Len(p) < Len(b) + 2 \/ ~Within(b, p) \/ ~IsLocale(p[Len(b) + 1]) THEN {}
  ELSE LET rest == Rel(SubSeq(p, 1, Len(b) + 1), p)  d == {f \in refs : Rel(ref, f) = rest} IN
       IF d # {} THEN d ELSE {f \in refs : TargetRel(ref, f) = rest}
If(c, n) == IF c THEN {} ELSE {n}
DiscoverVerdict(e) ==
  IF e.op = "idle" THEN {}
  ELSE
  LET t == [root |-> e.root, hasref |-> e.hasref, refroot |-> e.refroot, dirs |-> Range(e.dirs), files |-> Range(e.files), srcs |-> e.srcs, lines |-> e.lines, force |-> Range(e.force)]
      cands == References(t)
  IN IF e.out.k = "missing" THEN If(cands = {}, "reference_not_found")
     ELSE IF e.out.k # "ok" THEN {"raised"}
     ELSE If(e.out.ref \in cands, "other_reference")
          \cup (IF e.out.ref \notin cands THEN {} ELSE
            LET ref == e.out.ref
                refs == RefFiles(t, ref)
                bases == Bases(t, ref)
            IN If(Range(e.out.refs) = refs, "reference_files")
               \cup (IF bases = {} THEN If(~e.out.hasbase, "base_without_locales")
                     ELSE IF ~e.out.hasbase \/ e.out.base \notin bases THEN {"other_base"}
                     ELSE LET b == e.out.base IN
                       If(Range(e.out.locales) = Locales(t, b), "locales")
                       \cup If({x.ref : x \in Range(e.out.all)} = refs /\ \A x \in Range(e.out.all) : x.loc = e.out.locales, "listing")
                       \cup If(\A x \in Range(e.out.targets) : x.t = TargetOf(t, ref, b, x.ref, x.lc), "target")
                       \cup If(\A x \in Range(e.out.filled) : x.t = TargetOf(t, ref, b, x.ref, x.lc), "listed_target")
                       \cup If(\A x \in Range(e.out.other) : ~x.some, "target_of_other")
                       \cup If(\A x \in Range(e.out.finds) : LET rs == RefsOf(t, ref, b, refs, x.p) IN
                                 IF rs = {} THEN ~x.some ELSE x.some /\ x.ref \in rs /\ x.lc = Swap(x.p[Len(b) + 1], Under_, Hyphen), "find_reference")))
=============================================================================
