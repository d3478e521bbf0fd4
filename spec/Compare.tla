------------------------------ MODULE Compare -------------------------------
(* C06: what a comparison of localizations with their source reports.        *)
(* A source is a set of files [path, ids]; a locale directory has for some   *)
(* paths a file: its identifiers, or that it cannot be parsed.               *)
EXTENDS Text
Comma == 44
Bang == 33
DotX == 46
Quotes == {34, 39}
\* the extension option: sets of endings to include and to exclude
Items(opt) == LET s == TrimRight(TrimLeft(opt, Quotes), Quotes)  it == Split(s, Comma) IN [i \in 1..Len(it) |-> Strip(it[i])]
Dotted(x) == IF x[1] = DotX THEN x ELSE <<DotX>> \o x
Excluded(opt) == {Dotted(From(x, 2)) : x \in {y \in Range(Items(opt)) : Len(y) > 1 /\ y[1] = Bang}}
IncludedX(opt) == {Dotted(x) : x \in {y \in Range(Items(opt)) : y # <<>> /\ y[1] # Bang}}
Wanted(opt, path) == /\ (IncludedX(opt) # {} => \E x \in IncludedX(opt) : EndsWith(path, x))
                     /\ ~\E x \in Excluded(opt) : EndsWith(path, x)
Considered(src, opt) == {f \in src : Wanted(opt, f.path)}
TotalOf(fs) == FoldSet(LAMBDA f, n : n + Cardinality(f.ids), 0, fs)
FileAt(loc, p) == CHOOSE f \in loc : f.path = p
There(loc, p) == \E f \in loc : f.path = p
MissingOf(fs, loc) ==
  {[path |-> f.path, ids |-> IF There(loc, f.path) THEN f.ids \ FileAt(loc, f.path).ids ELSE f.ids] :
     f \in {g \in fs : ~There(loc, g.path) \/ (FileAt(loc, g.path).ok /\ ~(g.ids \subseteq FileAt(loc, g.path).ids))}}
NonEmpty(fs) == {f \in fs : f.ids # {}}
Missing(fs, loc) == MissingOf(NonEmpty(fs), loc)
Errors(fs, loc) == {f.path : f \in {g \in NonEmpty(fs) : There(loc, g.path) /\ ~FileAt(loc, g.path).ok}}
If(c, n) == IF c THEN {} ELSE {n}
AsSet(fs) == {[path |-> f.path, ok |-> f.ok, ids |-> Range(f.ids)] : f \in Range(fs)}
Bag(fs) == {[path |-> f.path, ids |-> Range(f.ids)] : f \in Range(fs)}
(* ev: source files, extension option, directories asked for (in order, some *)
(* not there), verbosity, JSON or not, and what was printed                  *)
CompareVerdict(e) ==
  IF e.op = "idle" THEN {}
  ELSE
  LET src == {[path |-> f.path, ids |-> f.ids] : f \in {g \in AsSet(e.src) : g.ok}}
      fs == Considered(src, e.ext)
      broken == \E f \in AsSet(e.src) : ~f.ok /\ Wanted(e.ext, f.path)
      total == TotalOf(fs)
      o == e.out
      dirs == {d \in Range(e.dirs) : d.exists}
      rep(lc) == SelectSeq(o.locs, LAMBDA r : r.lc = lc)
  IN IF total = 0 \/ broken THEN If(o.k = "fail", "no_messages_accepted")
     ELSE IF o.k # "ok" THEN {"failed"}
     ELSE If(e.json \/ o.total = total, "total")
          \cup If([i \in 1..Len(o.locs) |-> o.locs[i].lc] = [i \in 1..Len(SelectSeq(e.dirs, LAMBDA d : d.exists)) |-> SelectSeq(e.dirs, LAMBDA d : d.exists)[i].lc], "locales")
          \cup UNION {LET r == rep(d.lc)  loc == AsSet(d.files)  ms == Missing(fs, loc) IN
                 IF Len(r) # 1 THEN {"locales"}
                 ELSE If(Range(r[1].errors) = Errors(fs, loc) /\ Len(r[1].errors) = Cardinality(Errors(fs, loc)), "errors")
                      \cup If(e.json \/ r[1].count = TotalOf(ms), "count")
                      \cup (IF ~e.json /\ e.v = 0 THEN If(r[1].missing = <<>>, "missing")
                            ELSE IF e.json \/ e.v > 1 THEN If(Bag(r[1].missing) = ms /\ Len(r[1].missing) = Cardinality(ms) /\ \A m \in Range(r[1].missing) : Len(m.ids) = Cardinality(Range(m.ids)), "missing")
                            ELSE If({[path |-> m.path, n |-> m.n] : m \in Range(r[1].missing)} = {[path |-> m.path, n |-> Cardinality(m.ids)] : m \in ms}, "missing"))
                 : d \in dirs}
=============================================================================
