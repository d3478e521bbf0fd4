------------------------------- MODULE LinePos -------------------------------
(* C31: where the entries, sections and standalone comments of Fluent and    *)
(* .properties files are in the source.  A document is a sequence of blocks  *)
(* of lines: blank lines, comments, group and resource comments (Fluent),    *)
(* and entries, of which it is told how far below the first line of its key  *)
(* its value starts.  A position is <<start, key, value, end>>.              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
If(c, n) == IF c THEN {} ELSE {n}
Kinds == {"blank", "com", "group", "close", "res", "ent"}
\* comments of one kind that are next to each other are one comment
Apart(bs) == \A i \in 1..(Len(bs) - 1) :
               /\ bs[i].k \in {"com", "res"} => bs[i + 1].k # bs[i].k
               /\ bs[i].k \in {"group", "close"} => bs[i + 1].k \notin {"group", "close"}
\* a section: position of its header, whether it has a comment, its entries
NewSec == [lp |-> <<>>, com |-> FALSE, ents |-> <<>>]
\* line: that of the next block; pend: the comment before it; first: nothing but blank lines so far
Init0 == [line |-> 1, pend |-> <<>>, first |-> TRUE, rescom |-> FALSE, secs |-> <<NewSec>>]
AddEnt(st, lp) == [st EXCEPT !.secs[Len(st.secs)].ents = Append(@, lp)]
Span(a, b) == <<a, a, a, b>>
\* the pending comment turns out to stand alone
Flush(f, st) ==
  IF st.pend = <<>> THEN st
  ELSE LET p == st.pend  s == [st EXCEPT !.pend = <<>>, !.first = FALSE] IN
       IF f = "fluent"
       THEN IF st.first THEN s \* of the whole file
            ELSE AddEnt(s, Span(p[1], p[2]))
       ELSE IF ~st.rescom /\ st.secs[1].ents = <<>> THEN [s EXCEPT !.rescom = TRUE]
            ELSE AddEnt(s, Span(p[1], p[2]))
Skip(st, b) == [st EXCEPT !.line = @ + b.n]
Block(f, st0, b) ==
  LET st == IF b.k = "ent" THEN st0 ELSE Flush(f, st0)  l == st.line IN
  CASE b.k = "blank" -> Skip(st, b)
    [] b.k = "com" -> Skip([st EXCEPT !.pend = <<l, l + b.n>>], b)
    [] b.k = "res" -> Skip([st EXCEPT !.first = FALSE], b)
    [] b.k \in {"group", "close"} ->
         LET cur == st.secs[Len(st.secs)]  lp == Span(l, l + b.n)
             s == IF cur.ents # <<>> \/ cur.com THEN [st EXCEPT !.secs = Append(@, [NewSec EXCEPT !.lp = lp, !.com = b.k = "group"])]
                  ELSE [st EXCEPT !.secs[Len(st.secs)].lp = lp, !.secs[Len(st.secs)].com = b.k = "group"]
         IN Skip([s EXCEPT !.first = FALSE], b)
    [] b.k = "ent" -> Skip(AddEnt([st EXCEPT !.pend = <<>>, !.first = FALSE], <<IF st.pend = <<>> THEN l ELSE st.pend[1], l, l + b.v, l + b.n>>), b)
Fold(f, bs) == FoldLeft(LAMBDA st, b : Block(f, st, b), Init0, bs)
Positions(f, bs) == LET st == Flush(f, Fold(f, bs)) IN [i \in 1..Len(st.secs) |-> [lp |-> st.secs[i].lp, ents |-> st.secs[i].ents]]
Lines(bs) == FoldLeft(LAMBDA n, b : n + b.n, 0, bs)
\* all, in the order of the file
AllPos(secs) == FoldLeft(LAMBDA a, s : a \o (IF s.lp = <<>> THEN <<>> ELSE <<s.lp>>) \o s.ents, <<>>, secs)
Ordered(lp) == lp[1] >= 1 /\ lp[1] <= lp[2] /\ lp[2] <= lp[3] /\ lp[3] < lp[4]
Disjoint(ps) == \A i \in 1..(Len(ps) - 1) : ps[i][4] <= ps[i + 1][1]
LinePosVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] e.op = "file" ->
         If(e.lines = Lines(e.blocks), "harness_lines")
         \cup If(\A i \in 1..Len(e.runs) : e.runs[i].ok, "failed")
         \cup UNION {If(e.runs[i].ok => e.runs[i].secs = Positions(e.fmt, e.blocks), e.runs[i].how) : i \in 1..Len(e.runs)}
    \* an entry alone: comments before it are left out
    [] e.op = "entry" -> LET es == Positions("fluent", e.blocks)[1].ents  p == es[Len(es)] IN If(e.ok /\ e.lp = [p EXCEPT ![1] = p[2]], "entry")
    [] e.op = "off" -> If(e.none, "not_asked_for") \cup If(e.same, "content_differs")
=============================================================================
