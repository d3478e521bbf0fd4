----------------------------- MODULE MC_Xliff ------------------------------
(* Documents are built an element at a time: files, groups, units, comments. *)
(* Whatever a document means can be written (Encode, below, is one writer),  *)
(* and what is written means the same; no comment, unit or note is lost.     *)
(* Texts of a few tokens: format specifiers keep the text they stand for.    *)
EXTENDS Xliff, Json, IOUtils
CONSTANTS MaxEl, MaxTok, EmitEl, EmitSrc
VARIABLES mode, src, files, stack, n
vars == <<mode, src, files, stack, n>>
\* the stack holds open elements: a file with its body, and the groups in it
El(name, at, kids) == [t |-> "el", n |-> name, at |-> at, kids |-> kids]
A(k, v) == [k |-> k, v |-> v]
T(s) == IF s = <<>> THEN <<>> ELSE <<Txt(s)>>
C(s) == [t |-> "com", s |-> s]
S(kids) == El(cSource, <<>>, kids)
G(kids) == El(cTarget, <<>>, kids)
N(at, s) == El(cNote, at, T(s))
U(id, kids) == El(cUnit, <<A(cId, id)>>, kids)
Id(i) == <<117>> \o Num(i)
Words == T(<<97>>)
Units == <<
  U(<<>>, <<S(Words)>>),
  U(<<>>, <<S(Words), G(T(<<98>>))>>),
  U(<<>>, <<S(<<>>), G(<<>>)>>),
  U(<<>>, <<G(Words), S(T(<<32>>))>>),
  U(<<>>, <<S(<<Txt(<<97>>), El(<<103>>, <<A(cId, <<49>>)>>, <<El(<<120>>, <<>>, <<>>), Txt(<<98>>)>>)>>), El(cTarget, <<A(<<115>>, <<116>>)>>, <<El(<<112, 104>>, <<>>, <<>>), Txt(<<37, 100>>)>>)>>),
  U(<<>>, <<S(Words), N(<<>>, <<110>>), N(<<A(cFrom, <<102>>)>>, <<32, 109, 32>>)>>),
  U(<<>>, <<El(<<101>>, <<>>, <<C(<<99>>), Txt(<<116>>), El(<<102>>, <<>>, <<>>), El(<<102>>, <<>>, Words)>>), S(Words), C(<<99>>)>>),
  U(<<>>, <<S(Words), S(Words), G(<<>>)>>),
  El(cBin, <<A(cId, <<>>)>>, <<El(<<98, 105, 110, 45, 115, 111, 117, 114, 99, 101>>, <<>>, <<>>), N(<<>>, <<110>>)>>)>>
XUnits == <<
  U(<<124>>, <<S(T(<<37, 100, 32, 97>>))>>), U(<<124>>, <<S(T(<<120>>)), G(T(<<37, 35, 64, 118, 64>>)), N(<<>>, <<110>>)>>),
  U(<<124, 124, 61, 61, 124, 112, 108, 117, 114, 97, 108, 46, 111, 110, 101>>, <<S(T(<<37, 100, 32, 97>>)), G(T(<<37, 100, 32, 98>>)), N(<<>>, <<110>>)>>), U(<<124, 124, 61, 61, 124, 112, 108, 117, 114, 97, 108, 46, 111, 116, 104, 101, 114>>, <<S(T(<<37, 100, 32, 97>>)), G(T(<<37, 100, 32, 98>>))>>), U(<<124, 124, 61, 61, 124, 112, 108, 117, 114, 97, 108, 46, 111, 116, 104, 101, 114>>, <<S(T(<<37, 108, 100, 32, 97>>)), N(<<>>, <<110>>)>>),
  U(<<124, 124, 61, 61, 124, 100, 101, 118, 105, 99, 101, 46, 109, 97, 99>>, <<S(T(<<109>>)), G(T(<<110>>))>>), U(<<124, 124, 61, 61, 124, 100, 101, 118, 105, 99, 101, 46, 111, 116, 104, 101, 114>>, <<S(T(<<109>>)), N(<<>>, <<110>>), N(<<>>, <<111>>)>>),
  U(<<124, 124, 61, 61, 124, 115, 117, 98, 115, 116, 105, 116, 117, 116, 105, 111, 110, 115, 46, 118, 46, 112, 108, 117, 114, 97, 108, 46, 111, 110, 101>>, <<S(T(<<37, 97, 114, 103>>)), G(T(<<111, 110, 101>>))>>), U(<<124, 124, 61, 61, 124, 115, 117, 98, 115, 116, 105, 116, 117, 116, 105, 111, 110, 115, 46, 118, 46, 112, 108, 117, 114, 97, 108, 46, 111, 116, 104, 101, 114>>, <<S(T(<<37, 100>>)), G(T(<<37, 100>>))>>)>>
DUnits == <<
  U(<<47, 124, 58, 100, 105, 99, 116, 47, 78, 83, 83, 116, 114, 105, 110, 103, 76, 111, 99, 97, 108, 105, 122, 101, 100, 70, 111, 114, 109, 97, 116, 75, 101, 121, 58, 100, 105, 99, 116, 47, 58, 115, 116, 114, 105, 110, 103>>, <<S(T(<<37, 35, 64, 118, 64>>)), G(T(<<37, 35, 64, 118, 64>>)), N(<<>>, <<110>>)>>), U(<<47, 124, 58, 100, 105, 99, 116, 47, 78, 83, 83, 116, 114, 105, 110, 103, 76, 111, 99, 97, 108, 105, 122, 101, 100, 70, 111, 114, 109, 97, 116, 75, 101, 121, 58, 100, 105, 99, 116, 47, 58, 115, 116, 114, 105, 110, 103>>, <<S(T(<<97, 32, 37, 35, 64, 119, 64>>))>>),
  U(<<47, 124, 58, 100, 105, 99, 116, 47, 118, 58, 100, 105, 99, 116, 47, 111, 110, 101, 58, 100, 105, 99, 116, 47, 58, 115, 116, 114, 105, 110, 103>>, <<S(T(<<111, 110, 101>>)), N(<<>>, <<110>>)>>), U(<<47, 124, 58, 100, 105, 99, 116, 47, 118, 58, 100, 105, 99, 116, 47, 111, 116, 104, 101, 114, 58, 100, 105, 99, 116, 47, 58, 115, 116, 114, 105, 110, 103>>, <<S(T(<<37, 100>>)), G(T(<<37, 100, 32, 98>>)), N(<<>>, <<110>>)>>), U(<<47, 124, 58, 100, 105, 99, 116, 47, 119, 58, 100, 105, 99, 116, 47, 111, 116, 104, 101, 114, 58, 100, 105, 99, 116, 47, 58, 115, 116, 114, 105, 110, 103>>, <<S(T(<<119>>))>>),
  U(<<97>>, <<S(T(<<37, 100>>))>>)>>
Subst(id, i) == Concat([j \in 1..Len(id) |-> IF id[j] = 124 /\ At(id, j + 1) # 61 /\ At(id, j - 1) # 61 THEN Id(i) ELSE <<id[j]>>])
XHead == El(cHeader, <<>>, <<El(<<116, 111, 111, 108>>, <<A(<<116, 111, 111, 108, 45, 105, 100>>, cXcode)>>, <<>>)>>)
FileKinds == {"plain", "xcode", "catalog", "dict"}
Name(k) == CASE k \in {"plain", "xcode"} -> <<97>> [] k = "catalog" -> <<97, 46, 120, 99, 115, 116, 114, 105, 110, 103, 115>> [] OTHER -> <<97, 46, 115, 116, 114, 105, 110, 103, 115, 100, 105, 99, 116>>
Open(k) == [kind |-> k, name |-> Name(k) , kids |-> <<>>]
Top == stack[Len(stack)]
Pool == CASE Top.kind = "catalog" -> XUnits [] Top.kind = "dict" -> DUnits [] OTHER -> Units
\* the units of Xcode files are of two messages
Renamed(u) == {[u EXCEPT !.at = <<A(cId, IF Top.kind \in {"catalog", "dict"} THEN Subst(@[1].v, i) ELSE Id(n))>>] : i \in IF Top.kind \in {"catalog", "dict"} THEN 1..2 ELSE {1}}
Push(k) == stack' = [stack EXCEPT ![Len(stack)].kids = Append(@, k)]
FileEl(f) == El(cFile, <<A(cOriginal, f.name)>>, (IF f.kind = "plain" THEN <<>> ELSE <<XHead>>) \o <<El(cBody, <<>>, f.kids)>>)
GroupEl(g) == El(cGroup, <<A(cId, g.name)>>, g.kids)
Closed == IF Top.kind \in {"group"} THEN GroupEl(Top) ELSE FileEl(Top)
\* close everything that is open
RECURSIVE CloseAll(_)
CloseAll(st) ==
  IF Len(st) = 1 THEN FileEl(st[1])
  ELSE CloseAll([i \in 1..(Len(st) - 1) |-> IF i < Len(st) - 1 THEN st[i] ELSE [st[i] EXCEPT !.kids = Append(@, GroupEl(st[Len(st)]))]])
Init == mode \in {"doc", "text"} /\ src \in BOOLEAN /\ (mode = "text" => ~src) /\ files = <<>> /\ stack = <<>> /\ n = 0
OpenFile == stack = <<>> /\ (\E k \in FileKinds : stack' = <<Open(k)>> /\ ~\E i \in 1..Len(files) : files[i].t = "el" /\ Attr(files[i], cOriginal) = Name(k)) /\ UNCHANGED files
TopComment == stack = <<>> /\ files' = Append(files, C(<<32, 99, 32>>)) /\ UNCHANGED stack
Comment == stack # <<>> /\ Push(C(<<32, 99, 32>>)) /\ UNCHANGED files
Unit == stack # <<>> /\ (\E i \in 1..Len(Pool) : \E u \in Renamed(Pool[i]) : Push(u)) /\ UNCHANGED files
Group == stack # <<>> /\ Top.kind # "catalog" /\ Top.kind # "dict" /\ stack' = Append(stack, [kind |-> "group", name |-> Id(n), kids |-> <<>>]) /\ UNCHANGED files
GroupMeta == stack # <<>> /\ Top.kind = "group" /\ Push(El(<<112>>, <<A(<<97>>, <<98>>)>>, Words)) /\ UNCHANGED files
CloseGroup == Len(stack) > 1 /\ stack' = SubSeq([stack EXCEPT ![Len(stack) - 1].kids = Append(@, GroupEl(Top))], 1, Len(stack) - 1) /\ UNCHANGED files
CloseFile == Len(stack) = 1 /\ Top.kids # <<>> /\ files' = Append(files, FileEl(Top)) /\ stack' = <<>>
Toks == << <<97>>, <<37>>, <<37, 37>>, <<37, 100>>, <<37, 49, 36, 64>>, <<37, 35, 64>>, <<110, 64>>, <<108>>, <<50, 36>>, <<46, 49, 102>>, <<32>>, <<35, 64, 118, 64>> >>
NextDoc == mode = "doc" /\ n < MaxEl /\ (OpenFile \/ TopComment \/ Comment \/ Unit \/ Group \/ GroupMeta \/ CloseGroup \/ CloseFile)
NextText == mode = "text" /\ n < MaxTok /\ (\E i \in 1..Len(Toks) : files' = files \o Toks[i]) /\ UNCHANGED stack
Next == (NextDoc \/ NextText) /\ n' = n + 1 /\ UNCHANGED <<mode, src>>
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- a writer
RECURSIVE Built(_, _)
Group1(m) == \* runs of metadata with the same head, in order of first mention
  LET hs == [i \in 1..Len(m) |-> HeadOf(m[i].k)] IN SelectSeq([i \in 1..Len(m) |-> [h |-> hs[i], i |-> i, first |-> hs[i] \in {<<>>, cComment} \/ \A j \in 1..(i - 1) : hs[j] # hs[i]]], LAMBDA x : x.first)
TagOf(h) == LET i == IndexFrom(h, 91, 1) IN IF i = 0 THEN h ELSE SubSeq(h, 1, i - 1)
Under(m, h) == LET s == SelectSeq(m, LAMBDA x : HeadOf(x.k) = h) IN [i \in 1..Len(s) |-> M(From(s[i].k, Len(h) + 2), s[i].v)]
Built(name, m) ==
  LET ats == SelectSeq(m, LAMBDA x : At(x.k, 1) = 64)
      gs == Group1(SelectSeq(m, LAMBDA x : At(x.k, 1) # 64))
      rest == SelectSeq(m, LAMBDA x : At(x.k, 1) # 64)
  IN El(name, [i \in 1..Len(ats) |-> A(Tail(ats[i].k), ats[i].v)],
        Concat([i \in 1..Len(gs) |-> IF gs[i].h = <<>> THEN T(rest[gs[i].i].v) ELSE IF gs[i].h = cComment THEN <<C(rest[gs[i].i].v)>> ELSE <<Built(TagOf(gs[i].h), Under(rest, gs[i].h))>>]))
AttsOf(p) == LET f == SetToSeq(p.opt) IN [i \in 1..Len(f) |-> A(f[i].n, f[i].v.s)]
\* the elements of a pattern
PatKids(ps) ==
  LET end == FoldLeft(LAMBDA st, p :
        LET top == Len(st)  add(k) == [st EXCEPT ![top].kids = @ \o k] IN
        CASE p.t = "txt" -> add(T(p.s))
          [] p.t = "exp" -> add(T(SrcOf(p)))
          [] p.kind = "standalone" -> add(<<El(p.name, AttsOf(p), <<>>)>>)
          [] p.kind = "open" -> Append(st, El(p.name, AttsOf(p), <<>>))
          [] OTHER -> SubSeq([st EXCEPT ![top - 1].kids = Append(@, st[top])], 1, top - 1), <<El(<<>>, <<>>, <<>>)>>, ps)
  IN end[1].kids
EncUnit(e) ==
  IF IsBin(e.val) THEN Built(cBin, <<M(<<64>> \o cId, e.id[1])>> \o e.meta)
  ELSE LET u == Built(cUnit, <<M(<<64>> \o cId, e.id[1])>> \o e.meta)
           name == IF src THEN cSource ELSE cTarget
           k == PatKids(e.val.p)
           i == SelectInSeq(u.kids, LAMBDA x : x.t = "el" /\ x.n = name)
       IN IF k = <<>> /\ ~src THEN u
          ELSE IF i > 0 THEN [u EXCEPT !.kids[i].kids = @ \o k]
          ELSE IF src THEN [u EXCEPT !.kids = <<El(cSource, <<>>, k)>> \o @] ELSE [u EXCEPT !.kids = Append(@, El(cTarget, <<>>, k))]
EncEnts(s) == [i \in 1..Len(s.ents) |-> IF s.ents[i].t = "com" THEN C(s.ents[i].com) ELSE EncUnit(s.ents[i])]
RECURSIVE EncGroups(_, _)
EncGroups(r, id) ==
  LET gs == SelectSeq(r.secs, LAMBDA s : Len(s.id) = Len(id) + 1 /\ SubSeq(s.id, 1, Len(id)) = id) IN
  [i \in 1..Len(gs) |-> LET g == Built(cGroup, <<M(<<64>> \o cId, gs[i].id[Len(id) + 1])>> \o gs[i].meta) IN [g EXCEPT !.kids = @ \o EncEnts(gs[i]) \o EncGroups(r, gs[i].id)]]
EncFile(r, s) ==
  LET f == Built(cFile, <<M(<<64>> \o cOriginal, s.id[1])>> \o s.meta) IN
  (IF s.com = <<>> THEN <<>> ELSE <<C(s.com)>>) \o <<[f EXCEPT !.kids = Append(@, El(cBody, <<>>, EncEnts(s) \o EncGroups(r, s.id)))]>>
Encode(r) == LET fs == SelectSeq(r.secs, LAMBDA s : Len(s.id) = 1) IN [coms |-> IF r.com = <<>> THEN <<>> ELSE <<r.com>>, meta |-> r.meta, kids |-> Concat([i \in 1..Len(fs) |-> EncFile(r, fs[i])])]
\* ------------------------------------------------------------------ laws
Doc == [coms |-> <<>>, meta |-> <<>>, kids |-> IF stack = <<>> THEN files ELSE Append(files, CloseAll(stack))]
Ok == mode = "doc" /\ ~BadDoc(Doc, src) /\ ~Unsure(Doc, src)
Plain == \A i \in 1..Len(Doc.kids) : Doc.kids[i].t = "el" => ~DictFile(Doc.kids[i]) /\ ~CatFile(Doc.kids[i])
Res == Decode(Doc, src)
RoundTrip == Ok /\ Plain => Norm(Decode(Encode(Res), src)) = Norm(Res)
Writable == Ok => ~Refused(Res, src)
RECURSIVE Tally(_, _, _)
Tally(kids, name, depth) == IF depth = 0 THEN 0 ELSE FoldLeft(LAMBDA a, k : a + (IF k.t = "el" THEN (IF k.n = name THEN 1 ELSE 0) + Tally(k.kids, name, depth - 1) ELSE 0), 0, kids)
Entries_ == Concat([i \in 1..Len(Res.secs) |-> SelectSeq(Res.secs[i].ents, LAMBDA e : e.t = "ent")])
UnitsKept == Ok /\ Plain => Len(Entries_) = Tally(Doc.kids, cUnit, 9) + Tally(Doc.kids, cBin, 9)
\* of Xcode messages, each unit is the base, the format or a variant
VariantsKept == Ok /\ ~Plain =>
  FoldLeft(LAMBDA a, e : a + (IF e.val.t = "sel" THEN Len(e.val.var) + (IF \E x \in e.val.decl[1].e.attr : x.n \in {cSource, cSubst} THEN 1 ELSE 0) ELSE 1), 0, Entries_)
    = Tally(Doc.kids, cUnit, 9) + Tally(Doc.kids, cBin, 9)
SectionsNested == Ok => \A i \in 1..Len(Res.secs) : Len(Res.secs[i].id) > 1 => \E j \in 1..(i - 1) : Res.secs[j].id = SubSeq(Res.secs[i].id, 1, Len(Res.secs[i].id) - 1)
Parts == XcodeText(files)
TextKept == mode = "text" => Concat([i \in 1..Len(Parts) |-> IF Parts[i].t = "txt" THEN Parts[i].s ELSE SrcOf(Parts[i])]) = files
Emit == IOEnv.EMIT = "1" /\ n > 0 /\ (mode = "doc" => n <= IF src THEN EmitSrc ELSE EmitEl) => PrintT("CASE " \o ToJson(IF mode = "text" THEN [mode |-> mode, src |-> src, s |-> files, kids |-> <<>>] ELSE [mode |-> mode, src |-> src, s |-> <<>>, kids |-> Doc.kids]))
=============================================================================
