------------------------------- MODULE Xliff --------------------------------
(* C22: XLIFF 1.2.  A file is given as its XML tree: the comments before the *)
(* root, the attributes and namespaces of the root, and its children, which  *)
(* are [t |-> "txt", s], [t |-> "com", s] and [t |-> "el", n, at, kids] with *)
(* names as written.  Decode is what the file means.  A resource can be      *)
(* written unless Refused; what is written must mean the same resource, with *)
(* the metadata of a unit in the order of its elements.                      *)
EXTENDS Text, XmlComment
cSource == <<115, 111, 117, 114, 99, 101>>
cTarget == <<116, 97, 114, 103, 101, 116>>
cSegSource == <<115, 101, 103, 45, 115, 111, 117, 114, 99, 101>>
cNote == <<110, 111, 116, 101>>
cFrom == <<102, 114, 111, 109>>
cId == <<105, 100>>
cOriginal == <<111, 114, 105, 103, 105, 110, 97, 108>>
cFile == <<102, 105, 108, 101>>
cHeader == <<104, 101, 97, 100, 101, 114>>
cBody == <<98, 111, 100, 121>>
cGroup == <<103, 114, 111, 117, 112>>
cUnit == <<116, 114, 97, 110, 115, 45, 117, 110, 105, 116>>
cBin == <<98, 105, 110, 45, 117, 110, 105, 116>>
cComment == <<99, 111, 109, 109, 101, 110, 116, 40, 41>>
cToolId == <<104, 101, 97, 100, 101, 114, 47, 116, 111, 111, 108, 47, 64, 116, 111, 111, 108, 45, 105, 100>>
cXcode == <<99, 111, 109, 46, 97, 112, 112, 108, 101, 46, 100, 116, 46, 120, 99, 111, 100, 101>>
cStringsdict == <<46, 115, 116, 114, 105, 110, 103, 115, 100, 105, 99, 116>>
cXcstrings == <<46, 120, 99, 115, 116, 114, 105, 110, 103, 115>>
cSubst == <<115, 117, 98, 115, 116, 105, 116, 117, 116, 105, 111, 110>>
cIndex == <<105, 110, 100, 101, 120>>
cOther == <<111, 116, 104, 101, 114>>
cNumber == <<110, 117, 109, 98, 101, 114>>
cInteger == <<105, 110, 116, 101, 103, 101, 114>>
cString == <<115, 116, 114, 105, 110, 103>>
cDevice == <<100, 101, 118, 105, 99, 101>>
cPlural == <<112, 108, 117, 114, 97, 108>>
cSubsts == <<115, 117, 98, 115, 116, 105, 116, 117, 116, 105, 111, 110, 115>>
cFormat == <<102, 111, 114, 109, 97, 116>>
cFormatKey == <<78, 83, 83, 116, 114, 105, 110, 103, 76, 111, 99, 97, 108, 105, 122, 101, 100, 70, 111, 114, 109, 97, 116, 75, 101, 121>>
cDictSep == <<58, 100, 105, 99, 116, 47>>
cDictEnd == <<58, 100, 105, 99, 116, 47, 58, 115, 116, 114, 105, 110, 103>>
cIdSep == <<124, 61, 61, 124>>
Categories == {<<122, 101, 114, 111>>, <<111, 110, 101>>, <<116, 119, 111>>, <<102, 101, 119>>, <<109, 97, 110, 121>>, cOther}
Placeholders == {<<120>>, <<98, 120>>, <<101, 120>>}
\* ----------------------------------------------------------------- parts
Txt(s) == [t |-> "txt", s |-> s]
Lit(s) == [t |-> "lit", s |-> s]
Var(s) == [t |-> "var", s |-> s]
True == [t |-> "true", s |-> <<>>]
None == [t |-> "none", s |-> <<>>]
Nv(n, v) == [n |-> n, v |-> v]
Exp(arg, fn, attr) == [t |-> "exp", arg |-> arg, fn |-> fn, opt |-> {}, attr |-> attr]
Mark(kind, name, opt) == [t |-> "mku", kind |-> kind, name |-> name, opt |-> opt, attr |-> {}]
Opts(at) == {Nv(a.k, Lit(a.v)) : a \in Range(at)}
Pat(ps) == [t |-> "pat", decl |-> <<>>, p |-> ps]
Com(c) == [t |-> "com", com |-> c]
Ent(id, val, com, meta) == [t |-> "ent", id |-> <<id>>, val |-> val, props |-> <<>>, com |-> com, meta |-> meta]
Sec(id, ents, com, meta) == [id |-> id, ents |-> ents, com |-> com, meta |-> meta]
M(k, v) == [k |-> k, v |-> v]
SetPart(p) == IF p.t = "txt" THEN p ELSE [p EXCEPT !.opt = Range(@), !.attr = Range(@)]
SetPat(ps) == [i \in 1..Len(ps) |-> SetPart(ps[i])]
SetMsg(m) ==
  CASE m.t = "pat" -> [m EXCEPT !.p = SetPat(@), !.decl = [i \in 1..Len(@) |-> [@[i] EXCEPT !.e = SetPart(@)]]]
    [] m.t = "sel" -> [m EXCEPT !.decl = [i \in 1..Len(@) |-> [@[i] EXCEPT !.e = SetPart(@)]], !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = SetPat(@)]]]
    [] OTHER -> m
\* adjacent text is joined
Merge(ps) ==
  FoldLeft(LAMBDA a, p : IF p.t = "txt" /\ p.s = <<>> THEN a
                         ELSE IF p.t = "txt" /\ a # <<>> /\ a[Len(a)].t = "txt" THEN [a EXCEPT ![Len(a)] = Txt(@.s \o p.s)] ELSE Append(a, p), <<>>, ps)
\* ---------------------------------------------------------------- strings
Num(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Blank(s) == All(s, LAMBDA c : c \in PyWhite)
FindFrom(s, p, i) == LET S == {j \in i..(Len(s) - Len(p) + 1) : SubSeq(s, j, j + Len(p) - 1) = p} IN IF S = {} THEN 0 ELSE Min(S)
RECURSIVE SplitAt(_, _)
SplitAt(s, sep) == LET i == FindFrom(s, sep, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(From(s, i + Len(sep)), sep)
\* ------------------------------------------------- Xcode format specifiers
Flag == {45, 35, 43, 32, 48, 44}
DigitDot == Digit \cup {46}
IntType == {100, 111, 117, 120, 88}
FloatType == {97, 65, 101, 69, 102, 70, 103, 71}
AnyType == {64, 37, 97, 65, 99, 67, 100, 68, 101, 69, 102, 70, 103, 71, 111, 79, 112, 115, 83, 117, 85, 120, 88}
NameStart == Alpha \cup {95}
NameRest == NameStart \cup Digit \cup {233}
RunEnd(s, j, C) == LET k == SelectInSeq(From(s, j), LAMBDA c : c \notin C) IN IF k = 0 THEN Len(s) + 1 ELSE j + k - 1
\* where a substitution such as #@name@ at i ends; 0 if there is none
SubstEnd(s, i) ==
  IF At(s, i) = 35 /\ At(s, i + 1) = 64 /\ At(s, i + 2) \in NameStart
  THEN LET j == RunEnd(s, i + 2, NameRest) IN IF At(s, j) = 64 THEN j ELSE 0 ELSE 0
ConvEnd(s, i) ==
  LET j == RunEnd(s, IF At(s, i) \in Flag THEN i + 1 ELSE i, DigitDot)  c == At(s, j)  d == At(s, j + 1) IN
  CASE c \in {104, 108} -> IF d \in IntType THEN j + 1 ELSE IF d = c /\ At(s, j + 2) \in IntType THEN j + 2 ELSE 0
    [] c \in {113, 122, 116, 106} -> IF d \in IntType THEN j + 1 ELSE 0
    [] c = 76 -> IF d \in FloatType THEN j + 1 ELSE 0
    [] OTHER -> IF c \in AnyType THEN j ELSE 0
PosLen(s, i) == IF At(s, i) \in 49..57 /\ At(s, i + 1) = 36 THEN 2 ELSE 0
XcodePart(s, i) ==
  LET n == PosLen(s, i + 1)  b == SubstEnd(s, i + 1 + n)  e == IF b > 0 THEN b ELSE ConvEnd(s, i + 1 + n)
      src == Nv(cSource, Lit(SubSeq(s, i, e)))  pos == IF n = 0 THEN <<>> ELSE <<s[i + 1]>>
      c == At(s, e)
      idx == IF n = 0 THEN {} ELSE {Nv(cIndex, Lit(pos))}
      var(name, fn) == Exp(Var(name \o pos), fn, {src} \cup idx)
  IN [end |-> e,
      part |-> IF b > 0 THEN Exp(Var(SubSeq(s, i + 3 + n, b - 1)), cSubst, {src, Nv(cSubst, IF n = 0 THEN True ELSE Lit(pos))})
               ELSE CASE c = 37 -> Exp(Lit(<<37>>), <<>>, {src})
                      [] c \in {99, 67, 115, 83} -> var(<<115, 116, 114>>, cString)
                      [] c \in {100, 68, 111, 79, 112, 117, 85, 120, 88} -> var(<<105, 110, 116>>, cInteger)
                      [] c \in FloatType -> var(<<110, 117, 109>>, cNumber)
                      [] OTHER -> var(<<97, 114, 103>>, <<>>)]
RECURSIVE XcodeScan(_, _, _)
XcodeScan(s, b, i) ==
  LET n == IndexFrom(s, 37, i) IN
  IF n = 0 THEN <<Txt(From(s, b))>>
  ELSE LET x == XcodePart(s, n) IN
       IF x.end = 0 THEN XcodeScan(s, b, n + 1)
       ELSE <<Txt(SubSeq(s, b, n - 1)), x.part>> \o XcodeScan(s, x.end + 1, x.end + 1)
XcodeText(s) == Merge(XcodeScan(s, 1, 1))
\* --------------------------------------------------------------- elements
IsEl(k) == k.t = "el"
Els(el) == SelectSeq(el.kids, IsEl)
Named(el, n) == SelectSeq(el.kids, LAMBDA k : k.t = "el" /\ k.n = n)
Attr(el, k) == LET i == SelectInSeq(el.at, LAMBDA a : a.k = k) IN IF i = 0 THEN <<>> ELSE el.at[i].v
HasAttr(el, k) == \E i \in 1..Len(el.at) : el.at[i].k = k
\* the text before any child
Lead(el) == IF el.kids # <<>> /\ el.kids[1].t = "txt" THEN el.kids[1].s ELSE <<>>
\* text where there should be none
Stray(el) == \E i \in 1..Len(el.kids) : el.kids[i].t = "txt" /\ ~Blank(el.kids[i].s)
Count(kids, i) == Cardinality({j \in 1..i : kids[j].t = "el" /\ kids[j].n = kids[i].n})
Nth(name, k) == IF k > 1 THEN name \o <<91>> \o Num(k) \o <<93>> ELSE name
Path(base, name) == IF base = <<>> THEN name ELSE base \o <<47>> \o name
AttrMeta(at, base) == [i \in 1..Len(at) |-> M(Path(base, <<64>> \o at[i].k), at[i].v)]
AttrBut(el, k) == AttrMeta(SelectSeq(el.at, LAMBDA a : a.k # k), <<>>)
\* white space is content in these elements
Content(n) == n \in {cSource, cTarget, cSegSource}
RECURSIVE ElMeta(_, _, _)
BodyMeta(el, base, keep) ==
  Concat([i \in 1..Len(el.kids) |->
    LET k == el.kids[i] IN
    CASE k.t = "txt" -> IF k.s = <<>> \/ (~keep /\ Blank(k.s)) THEN <<>> ELSE <<M(base, k.s)>>
      [] k.t = "com" -> <<M(Path(base, cComment), k.s)>>
      [] OTHER -> ElMeta(k, Path(base, Nth(k.n, Count(el.kids, i))), keep)])
ElMeta(el, base, keep) ==
  LET m == AttrMeta(el.at, base) \o BodyMeta(el, base, keep \/ Content(el.n)) IN IF m = <<>> THEN <<M(base, <<>>)>> ELSE m
\* ------------------------------------------------------------------ units
RECURSIVE Pattern(_, _)
Pattern(el, xc) ==
  Concat([i \in 1..Len(el.kids) |->
    LET k == el.kids[i] IN
    CASE k.t = "txt" -> IF xc THEN XcodeText(k.s) ELSE <<Txt(k.s)>>
      [] k.t = "com" -> <<>>
      [] k.n \in Placeholders -> <<Mark("standalone", k.n, Opts(k.at))>>
      [] OTHER -> <<Mark("open", k.n, Opts(k.at))>> \o Pattern(k, xc) \o <<Mark("close", k.n, {})>>])
NoteText(n) == LET s == Strip(Lead(n))  f == Attr(n, cFrom) IN IF f = <<>> THEN s ELSE f \o <<58, 32>> \o s
NotesOf(el) == LET ns == SelectSeq(Named(el, cNote), LAMBDA n : ~Blank(Lead(n))) IN JoinWith([i \in 1..Len(ns) |-> NoteText(ns[i])], <<10, 10>>)
BadUnit(el, name) == ~HasAttr(el, cId) \/ Stray(el) \/ Len(Named(el, name)) > 1
TransUnit(el, xc, name) ==
  LET v == Named(el, name)
      meta == Concat([i \in 1..Len(el.kids) |->
                LET k == el.kids[i] IN
                CASE k.t = "txt" -> <<>>
                  [] k.t = "com" -> <<M(cComment, k.s)>>
                  [] k.n = name -> AttrMeta(k.at, name)
                  [] OTHER -> ElMeta(k, Nth(k.n, Count(el.kids, i)), FALSE)])
  IN Ent(Attr(el, cId), Pat(IF v = <<>> THEN <<>> ELSE Merge(Pattern(v[1], xc))), NotesOf(el), AttrBut(el, cId) \o meta)
BinPart == Exp(None, <<>>, {Nv(cBin, True)})
BinUnit(el) == Ent(Attr(el, cId), Pat(<<BinPart>>), <<>>, AttrBut(el, cId) \o BodyMeta(el, <<>>, FALSE))
InBody == {cUnit, cBin, cGroup}
RECURSIVE BadContent(_, _, _)
BadContent(el, name, strict) ==
  \/ Stray(el)
  \/ \E i \in 1..Len(el.kids) : LET k == el.kids[i] IN k.t = "el" /\
       CASE k.n = cUnit -> BadUnit(k, name) [] k.n = cBin -> ~HasAttr(k, cId) [] k.n = cGroup -> BadContent(k, name, FALSE) [] OTHER -> strict
Entries(el, xc, name) ==
  Concat([i \in 1..Len(el.kids) |->
    LET k == el.kids[i] IN
    CASE k.t = "com" -> <<Com(CommentStr(<<k.s>>))>>
      [] k.t = "el" /\ k.n = cUnit -> <<TransUnit(k, xc, name)>>
      [] k.t = "el" /\ k.n = cBin -> <<BinUnit(k)>>
      [] OTHER -> <<>>])
RECURSIVE Groups(_, _, _, _)
Groups(el, path, xc, name) ==
  LET gs == Named(el, cGroup) IN
  Concat([i \in 1..Len(gs) |->
    LET g == gs[i]  p == Append(path, Attr(g, cId)) IN
    <<Sec(p, Entries(g, xc, name), <<>>,
          AttrBut(g, cId) \o Concat([j \in 1..Len(g.kids) |-> LET k == g.kids[j] IN IF k.t = "el" /\ k.n \notin InBody THEN ElMeta(k, Nth(k.n, Count(g.kids, j)), FALSE) ELSE <<>>]))>>
    \o Groups(g, p, xc, name)])
\* ------------------------------------------------------ Xcode variations
BadXcodeUnit(u) ==
  \/ u.n # cUnit \/ ~HasAttr(u, cId) \/ Stray(u) \/ Len(Named(u, cSource)) # 1 \/ Len(Named(u, cTarget)) > 1
  \/ \E i \in 1..Len(u.kids) : LET k == u.kids[i] IN k.t = "com" \/ (k.t = "el" /\ (k.n \notin {cSource, cTarget, cNote} \/ (\E j \in 1..Len(k.kids) : k.kids[j].t # "txt") \/ (k.n = cSource /\ k.at # <<>>)))
XcodeNotes(u) == SelectSeq(Named(u, cNote), LAMBDA n : n.at # <<>> \/ ~Blank(Lead(n)))
XSource(u) == Lead(Named(u, cSource)[1])
XTarget(u) == LET t == Named(u, cTarget) IN IF t = <<>> THEN <<>> ELSE <<t[1]>>
NoteMeta(u, base) == LET ns == XcodeNotes(u) IN Concat([i \in 1..Len(ns) |-> ElMeta(ns[i], Path(base, Nth(cNote, i)), FALSE)])
XcodeCom(u) == LET ns == SelectSeq(XcodeNotes(u), LAMBDA n : ~Blank(Lead(n))) IN JoinWith([i \in 1..Len(ns) |-> Strip(Lead(ns[i]))], <<10, 10>>)
ValueMeta(u, base, src) ==
  LET t == XTarget(u) IN
  IF src THEN AttrMeta(Named(u, cSource)[1].at, Path(base, cSource)) \o (IF t = <<>> THEN <<>> ELSE ElMeta(t[1], Path(base, cTarget), FALSE))
  ELSE <<M(Path(base, cSource), XSource(u))>> \o (IF t = <<>> THEN <<>> ELSE AttrMeta(t[1].at, Path(base, cTarget)))
IdMeta(u, base) == AttrMeta(SelectSeq(u.at, LAMBDA a : a.k # cId), base)
ValueOf(u, src) == XcodeText(IF src THEN XSource(u) ELSE IF XTarget(u) = <<>> THEN <<>> ELSE Lead(XTarget(u)[1]))
Key(k) == IF k = cOther THEN [t |-> "any", s |-> <<61>> \o k] ELSE [t |-> "key", s |-> k]
\* the comments of the units [k, u] of a message
ColonJoin(us) == JoinWith([i \in 1..Len(us) |-> IF us[i].k = <<>> THEN XcodeCom(us[i].u) ELSE us[i].k \o <<58, 32>> \o XcodeCom(us[i].u)], <<10, 10>>)
ComsOf(us, all) ==
  LET n == SelectSeq(us, LAMBDA x : XcodeCom(x.u) # <<>>) IN
  IF n # <<>> /\ (IF all THEN Len(n) = Len(us) ELSE Len(n) > 1) /\ Cardinality({XcodeCom(n[i].u) : i \in 1..Len(n)}) = 1 THEN XcodeCom(n[1].u) ELSE ColonJoin(n)
\* ------------------------------------------------------------ stringsdict
IsDictId(id) == At(id, 1) = 47 /\ EndsWith(id, cDictEnd)
IsDict(body) == Els(body) # <<>> /\ \A i \in 1..Len(body.kids) : body.kids[i].t = "el" => body.kids[i].n = cUnit /\ IsDictId(Attr(body.kids[i], cId))
VarIn(s) == LET S == {i \in 1..Len(s) : s[i] = 37 /\ SubstEnd(s, i + 1) > 0} IN IF S = {} THEN <<>> ELSE SubSeq(s, Min(S) + 3, SubstEnd(s, Min(S) + 1) - 1)
DictUnit(u) ==
  LET p == SplitAt(Attr(u, cId), cDictSep) IN
  IF BadXcodeUnit(u) \/ Len(p) < 3 THEN [bad |-> TRUE]
  ELSE IF p[2] = cFormatKey THEN [bad |-> Len(p) # 3 \/ VarIn(XSource(u)) = <<>>, id |-> Tail(p[1]), var |-> VarIn(XSource(u)), k |-> cFormat, u |-> u]
  ELSE IF Len(p) # 4 THEN [bad |-> TRUE] ELSE [bad |-> p[3] \notin Categories, id |-> Tail(p[1]), var |-> p[2], k |-> p[3], u |-> u]
DictUnits(body) == LET es == Els(body) IN [i \in 1..Len(es) |-> DictUnit(es[i])]
BadDict(us) == (\E i \in 1..Len(us) : us[i].bad) \/ \E i, j \in 1..Len(us) : i < j /\ us[i].id = us[j].id /\ (us[i].k = us[j].k \/ us[i].var # us[j].var)
FirstIds(us) == LET f == SelectSeq([i \in 1..Len(us) |-> [u |-> us[i], first |-> \A j \in 1..(i - 1) : us[j].id # us[i].id]], LAMBDA x : x.first) IN [i \in 1..Len(f) |-> f[i].u.id]
DictEntry(us, id, src) ==
  LET mine == SelectSeq(us, LAMBDA u : u.id = id)
      fmt == SelectSeq(mine, LAMBDA u : u.k = cFormat)
      var == SelectSeq(mine, LAMBDA u : u.k # cFormat)
      name == mine[1].var
      fsrc == IF fmt = <<>> THEN <<>> ELSE XSource(fmt[1].u)
      fmeta == IF fmt = <<>> THEN <<>> ELSE
               LET u == fmt[1].u  t == XTarget(u) IN
               IdMeta(u, cFormat) \o NoteMeta(u, cFormat) \o (IF t = <<>> THEN <<>> ELSE AttrMeta(t[1].at, Path(cFormat, cTarget)) \o (IF Lead(t[1]) \in {<<>>, fsrc} THEN <<>> ELSE <<M(Path(cFormat, cTarget), Lead(t[1]))>>))
  IN Ent(id, [t |-> "sel", decl |-> <<[n |-> name, e |-> Exp(Var(name), cNumber, IF fsrc = <<>> THEN {} ELSE {Nv(cSource, Lit(fsrc))})]>>, sel |-> <<name>>,
              var |-> [i \in 1..Len(var) |-> [k |-> <<Key(var[i].k)>>, p |-> ValueOf(var[i].u, src)]]],
         ComsOf(fmt \o var, TRUE),
         fmeta \o Concat([i \in 1..Len(var) |-> IdMeta(var[i].u, var[i].k) \o NoteMeta(var[i].u, var[i].k) \o ValueMeta(var[i].u, var[i].k, src)]))
DictEntries(body, src) == LET us == DictUnits(body)  ids == FirstIds(us) IN [i \in 1..Len(ids) |-> DictEntry(us, ids[i], src)]
\* -------------------------------------------------------------- xcstrings
CatUnit(u) ==
  IF BadXcodeUnit(u) THEN [bad |-> TRUE]
  ELSE LET p == SplitAt(Attr(u, cId), cIdSep)
           d == IF Len(p) = 2 THEN Split(p[2], 46) ELSE <<<<>>>>
           r(dim, var, k) == [bad |-> FALSE, id |-> p[1], dim |-> dim, var |-> var, k |-> k, u |-> u]
       IN CASE Len(p) = 1 -> r("base", <<>>, <<>>)
            [] d[1] = cPlural /\ Len(d) = 2 -> r("plural", <<>>, d[2])
            [] d[1] = cDevice /\ Len(d) = 2 -> r("device", <<>>, d[2])
            [] d[1] = cSubsts /\ Len(d) = 4 /\ d[3] = cPlural -> r("subst", d[2], d[4])
            [] OTHER -> [bad |-> TRUE]
CatUnits(body) == LET es == Els(body) IN [i \in 1..Len(es) |-> CatUnit(es[i])]
Mine(us, id, dim) == SelectSeq(us, LAMBDA u : u.id = id /\ u.dim = dim)
VarParts(ps) == SelectSeq(ps, LAMBDA p : p.t = "exp" /\ p.arg.t = "var")
SrcOf(p) == LET a == {x \in p.attr : x.n = cSource /\ x.v.t = "lit"} IN IF a = {} THEN <<>> ELSE (CHOOSE x \in a : TRUE).v.s
\* the placeholder of the first argument
First_(ps) == LET v == SelectSeq(ps, LAMBDA p : p.t = "exp" /\ p.arg.t = "var" /\ ~(At(SrcOf(p), 2) \in 50..57 /\ At(SrcOf(p), 3) = 36)) IN IF v = <<>> THEN <<>> ELSE <<v[1]>>
PluralPlaceholder(vs, src) == LET f == Concat([i \in 1..Len(vs) |-> First_(ValueOf(vs[i].u, src))]) IN IF f = <<>> THEN <<>> ELSE <<f[1]>>
Unfunction(ps, ph) == [i \in 1..Len(ps) |-> IF ph # <<>> /\ ps[i] = ph[1] THEN [ps[i] EXCEPT !.fn = <<>>] ELSE ps[i]]
Distinct(us) == \A i, j \in 1..Len(us) : i # j => <<us[i].var, us[i].k>> # <<us[j].var, us[j].k>>
HasOther(us) == \E i \in 1..Len(us) : us[i].k = cOther
BadCat(us, id, src) ==
  LET b == Mine(us, id, "base")  p == Mine(us, id, "plural")  d == Mine(us, id, "device")  s == Mine(us, id, "subst") IN
  \/ ~Distinct(b) \/ ~Distinct(p) \/ ~Distinct(d) \/ ~Distinct(s)
  \/ (IF s # <<>> THEN b = <<>> \/ p # <<>> \/ d # <<>> \/ \E i \in 1..Len(s) : s[i].k \notin Categories
      ELSE IF b # <<>> THEN p # <<>> \/ d # <<>>
      ELSE IF p # <<>> THEN d # <<>> \/ ~HasOther(p) \/ (\E i \in 1..Len(p) : p[i].k \notin Categories)
                            \/ (\E i \in 1..Len(p) : LET f == First_(ValueOf(p[i].u, src)) IN f # <<>> /\ f # PluralPlaceholder(p, src))
      ELSE ~HasOther(d))
\* which substitutions are placeholders of the message, and which have variants: only one is supported
SubstOf(ps) == SelectSeq(VarParts(ps), LAMBDA p : \E a \in p.attr : a.n = cSubst)
OneSubst(us, id, src) ==
  LET b == Mine(us, id, "base")  s == Mine(us, id, "subst")  ph == SubstOf(ValueOf(b[1].u, src)) IN
  /\ Cardinality({s[i].var : i \in 1..Len(s)}) = 1
  /\ IF ValueOf(b[1].u, src) = <<>> THEN TRUE ELSE Len(VarParts(ValueOf(b[1].u, src))) = 1 /\ Len(ph) = 1 /\ ph[1].arg.s = s[1].var
  /\ \A i \in 1..Len(s) : Len(VarParts(ValueOf(s[i].u, src))) <= 1 /\ SubstOf(ValueOf(s[i].u, src)) = <<>>
IndexOf(p) == LET a == {x \in p.attr : x.n \in {cIndex, cSubst}} IN IF a = {} THEN True ELSE (CHOOSE x \in a : TRUE).v
VarsMeta(us, src) == Concat([i \in 1..Len(us) |-> LET b == IF us[i].var = <<>> THEN us[i].k ELSE Path(us[i].var, us[i].k) IN IdMeta(us[i].u, b) \o NoteMeta(us[i].u, b) \o ValueMeta(us[i].u, b, src)])
SubstEntry(us, id, src) ==
  LET b == Mine(us, id, "base")[1]  s == Mine(us, id, "subst")  name == s[1].var
      bp == ValueOf(b.u, src)
      ph == IF bp = <<>> THEN Exp(Var(name), cSubst, {Nv(cSubst, True)}) ELSE SubstOf(bp)[1]
      vals == [i \in 1..Len(s) |-> ValueOf(s[i].u, src)]
      mine(p) == p.t = "exp" /\ p.arg.t = "var" /\ IndexOf(p) = IndexOf(ph)
      fns == Concat([i \in 1..Len(vals) |-> LET v == SelectSeq(vals[i], mine) IN [j \in 1..Len(v) |-> v[j].fn]])
      fn == LET f == SelectSeq(fns, LAMBDA x : x # <<>>) IN IF f = <<>> THEN cSubst ELSE f[Len(f)]
      own(v) == [i \in 1..Len(v) |-> IF mine(v[i]) THEN [v[i] EXCEPT !.arg = Var(name), !.fn = <<>>] ELSE v[i]]
      fill(v) == IF bp = <<>> THEN own(v) ELSE Merge(Concat([i \in 1..Len(bp) |-> IF bp[i] = ph THEN own(v) ELSE <<bp[i]>>]))
      all == <<[k |-> <<>>, u |-> b.u]>> \o [i \in 1..Len(s) |-> [k |-> Path(name, s[i].k), u |-> s[i].u]]
  IN Ent(id, [t |-> "sel", decl |-> <<[n |-> name, e |-> [ph EXCEPT !.fn = fn]]>>, sel |-> <<name>>,
              var |-> [i \in 1..Len(s) |-> [k |-> <<Key(s[i].k)>>, p |-> fill(vals[i])]]],
         ComsOf(all, FALSE), IdMeta(b.u, <<>>) \o NoteMeta(b.u, <<>>) \o ValueMeta(b.u, <<>>, src) \o VarsMeta(s, src))
CatEntry(us, id, src) ==
  LET b == Mine(us, id, "base")  p == Mine(us, id, "plural")  d == Mine(us, id, "device")  s == Mine(us, id, "subst")
      ph == PluralPlaceholder(p, src)
      name == IF ph = <<>> THEN cPlural ELSE ph[1].arg.s
      vars(vs, h) == [i \in 1..Len(vs) |-> [k |-> <<Key(vs[i].k)>>, p |-> Unfunction(ValueOf(vs[i].u, src), h)]]
  IN IF s # <<>> THEN SubstEntry(us, id, src)
     ELSE IF b # <<>> THEN Ent(id, Pat(ValueOf(b[1].u, src)), XcodeCom(b[1].u), IdMeta(b[1].u, <<>>) \o NoteMeta(b[1].u, <<>>) \o ValueMeta(b[1].u, <<>>, src))
     ELSE IF p # <<>> THEN Ent(id, [t |-> "sel", decl |-> <<[n |-> name, e |-> IF ph = <<>> THEN Exp(None, cNumber, {}) ELSE [ph[1] EXCEPT !.attr = {}]]>>, sel |-> <<name>>, var |-> vars(p, ph)],
                               ComsOf(p, TRUE), VarsMeta(p, src))
     ELSE Ent(id, [t |-> "sel", decl |-> <<[n |-> cDevice, e |-> Exp(None, cDevice, {})]>>, sel |-> <<cDevice>>, var |-> vars(d, <<>>)], ComsOf(d, TRUE), VarsMeta(d, src))
CatEntries(body, src) == LET us == CatUnits(body)  ids == FirstIds(us) IN [i \in 1..Len(ids) |-> CatEntry(us, ids[i], src)]
BadCats(body, src) == LET us == CatUnits(body) IN (\E i \in 1..Len(us) : us[i].bad) \/ \E i \in 1..Len(us) : BadCat(us, us[i].id, src)
\* what is said to be unsupported: several substitutions, or one among other placeholders
UnsureCats(body, src) == LET us == CatUnits(body) IN (\A i \in 1..Len(us) : ~us[i].bad) /\ \E i \in 1..Len(us) : ~BadCat(us, us[i].id, src) /\ Mine(us, us[i].id, "subst") # <<>> /\ ~OneSubst(us, us[i].id, src)
\* ------------------------------------------------------------------ files
FileMeta(f) == AttrBut(f, cOriginal) \o LET hs == Named(f, cHeader) IN Concat([i \in 1..Len(hs) |-> ElMeta(hs[i], cHeader, FALSE)])
XcodeFile(f) == LET m == FileMeta(f) IN \E i \in 1..Len(m) : m[i] = M(cToolId, cXcode)
DictFile(f) == XcodeFile(f) /\ EndsWith(Attr(f, cOriginal), cStringsdict) /\ IsDict(Named(f, cBody)[1])
CatFile(f) == XcodeFile(f) /\ EndsWith(Attr(f, cOriginal), cXcstrings)
\* once the first units look like plurals, they have to be right
DictLead(b) == LET es == Els(b)  k == SelectInSeq(es, LAMBDA e : e.n # cUnit \/ ~IsDictId(Attr(e, cId))) IN SubSeq(es, 1, k - 1)
BadFile(f, src) ==
  \/ ~HasAttr(f, cOriginal) \/ Stray(f) \/ Len(Named(f, cBody)) # 1 \/ \E i \in 1..Len(f.kids) : f.kids[i].t = "el" /\ f.kids[i].n \notin {cHeader, cBody}
  \/ LET b == Named(f, cBody)[1] IN
     Stray(b) \/ (IF DictFile(f) THEN BadDict(DictUnits(b)) ELSE IF XcodeFile(f) /\ EndsWith(Attr(f, cOriginal), cStringsdict) /\ BadDict(DictUnits([kids |-> DictLead(b)])) THEN TRUE ELSE IF CatFile(f) THEN BadCats(b, src) ELSE BadContent(b, IF src THEN cSource ELSE cTarget, TRUE))
Coms(el) == LET c == SelectSeq(el.kids, LAMBDA k : k.t = "com") IN [i \in 1..Len(c) |-> Com(CommentStr(<<c[i].s>>))]
FileSecs(f, com, src) ==
  LET b == Named(f, cBody)[1]  id == <<Attr(f, cOriginal)>>  name == IF src THEN cSource ELSE cTarget  plain == ~DictFile(f) /\ ~CatFile(f)
      ents == IF DictFile(f) THEN Coms(b) \o DictEntries(b, src) ELSE IF CatFile(f) THEN Coms(b) \o CatEntries(b, src) ELSE Entries(b, XcodeFile(f), name)
  IN <<Sec(id, Coms(f) \o ents, com, FileMeta(f))>> \o (IF plain THEN Groups(b, id, XcodeFile(f), name) ELSE <<>>)
Files(d) == SelectSeq(d.kids, LAMBDA k : k.t = "el" /\ k.n = cFile)
BadDoc(d, src) == (\E i \in 1..Len(d.kids) : d.kids[i].t = "txt" /\ ~Blank(d.kids[i].s)) \/ \E i \in 1..Len(d.kids) : d.kids[i].t = "el" /\ d.kids[i].n = cFile /\ BadFile(d.kids[i], src)
Unsure(d, src) == \/ \E i \in 1..Len(d.kids) : d.kids[i].t = "el" /\ d.kids[i].n # cFile
                  \/ \E i \in 1..Len(d.kids) : LET f == d.kids[i] IN f.t = "el" /\ ~BadFile(f, src) /\ CatFile(f) /\ UnsureCats(Named(f, cBody)[1], src)
Decode(d, src) ==
  LET end == FoldLeft(LAMBDA st, k : CASE k.t = "com" -> [st EXCEPT !.pend = Append(@, k.s)]
                                       [] k.t = "el" /\ k.n = cFile -> [pend |-> <<>>, secs |-> st.secs \o FileSecs(k, CommentStr(st.pend), src)]
                                       [] OTHER -> st,
                      [pend |-> <<>>, secs |-> <<>>], d.kids)
  IN [com |-> CommentStr(d.coms), meta |-> d.meta, secs |-> end.secs]
\* ---------------------------------------------------------------- writing
\* a resource up to what is not kept: adjacent text, the layout of comments, which elements of a unit come first
Stand(p) == IF p.t = "mku" /\ p.kind = "standalone" /\ p.name \notin Placeholders THEN <<[p EXCEPT !.kind = "open"], Mark("close", p.name, {})>> ELSE <<p>>
NormPat(ps) == Merge(Concat([i \in 1..Len(ps) |-> Stand(ps[i])]))
HeadOf(k) == LET i == IndexFrom(k, 47, 1) IN IF i = 0 THEN k ELSE SubSeq(k, 1, i - 1)
MetaByHead(m) == LET H == {HeadOf(m[i].k) : i \in 1..Len(m)} IN {[h |-> h, m |-> SelectSeq(m, LAMBDA x : HeadOf(x.k) = h)] : h \in H}
NormMsg(m) ==
  CASE m.t = "pat" -> [m EXCEPT !.p = NormPat(@)]
    [] m.t = "sel" -> [m EXCEPT !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = NormPat(@)]]]
    [] OTHER -> Pat(Merge(<<Txt(m.s)>>))
NormEnt(e) == IF e.t = "com" THEN Com(NormCom(e.com)) ELSE [id |-> e.id, val |-> NormMsg(e.val), com |-> e.com, meta |-> MetaByHead(e.meta)]
NormSec(s) == [s EXCEPT !.com = NormCom(@), !.ents = [i \in 1..Len(@) |-> NormEnt(@[i])]]
Norm(r) == [com |-> NormCom(r.com), meta |-> Range(r.meta), secs |-> [i \in 1..Len(r.secs) |-> NormSec(r.secs[i])]]
SetEnt(e) == IF e.t = "com" THEN e ELSE [e EXCEPT !.val = SetMsg(@)]
SetRes(r) == [com |-> r.com, meta |-> r.meta, secs |-> [i \in 1..Len(r.secs) |-> [r.secs[i] EXCEPT !.ents = [j \in 1..Len(@) |-> SetEnt(@[j])]]]]
\* the same with text joined, as read
JoinMsg(m) == CASE m.t = "pat" -> [m EXCEPT !.p = Merge(@)] [] m.t = "sel" -> [m EXCEPT !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = Merge(@)]]] [] OTHER -> m
JoinEnt(e) == IF e.t = "com" THEN e ELSE [e EXCEPT !.val = JoinMsg(@)]
Read(r) == LET x == SetRes(r) IN [com |-> x.com, meta |-> Range(x.meta), secs |-> [i \in 1..Len(x.secs) |-> [x.secs[i] EXCEPT !.ents = [j \in 1..Len(@) |-> JoinEnt(@[j])]]]]
\* a resource is refused if it has what a file cannot hold
Declared(m) == {From(m[i].k, 8) : i \in {j \in 1..Len(m) : StartsWith(m[j].k, <<64, 120, 109, 108, 110, 115, 58>>)}} \cup {<<120, 109, 108>>}
KnownName(n, ns) == LET i == IndexFrom(n, 58, 1) IN i = 0 \/ SubSeq(n, 1, i - 1) \in ns
\* the names in a metadata key
Steps(k) == LET p == Split(k, 47) IN {LET s == p[i] IN IF At(s, 1) = 64 THEN Tail(s) ELSE s : i \in 1..Len(p)}
BadMeta(m, ns) == \E i \in 1..Len(m) : \E s \in Steps(m[i].k) : ~KnownName(s, ns)
Nest(ps) ==
  FoldLeft(LAMBDA st, p : IF p.t # "mku" \/ ~st.ok \/ p.kind = "standalone" THEN st
                          ELSE LET d == Len(st.open) IN
                               IF p.kind = "open" THEN [st EXCEPT !.open = Append(@, p.name)]
                               ELSE IF d > 0 /\ st.open[d] = p.name THEN [st EXCEPT !.open = SubSeq(@, 1, d - 1)] ELSE [st EXCEPT !.ok = FALSE],
           [ok |-> TRUE, open |-> <<>>], ps)
HasSrc(p) == \E a \in p.attr : a.n = cSource /\ a.v.t = "lit"
BadPart(p, ns) ==
  CASE p.t = "txt" -> FALSE
    [] p.t = "mku" -> (p.kind = "close" /\ p.opt # {}) \/ ~KnownName(p.name, ns) \/ \E a \in p.opt : a.v.t # "lit" \/ ~KnownName(a.n, ns)
    [] OTHER -> ~HasSrc(p)
BadPat(ps, ns) == (\E i \in 1..Len(ps) : BadPart(ps[i], ns)) \/ ~Nest(ps).ok \/ Nest(ps).open # <<>>
IsBin(m) == m.t = "pat" /\ Len(m.p) = 1 /\ m.p[1].t = "exp" /\ \E a \in m.p[1].attr : a.n = cBin
Has(m, head) == \E i \in 1..Len(m) : HeadOf(m[i].k) = head
IsNote(h) == h = cNote \/ StartsWith(h, cNote \o <<91>>)
HasNote(m) == \E i \in 1..Len(m) : IsNote(HeadOf(m[i].k))
BadPlain(e, ns, src) ==
  LET m == e.val  empty == m.t = "pat" /\ (m.p = <<>> \/ IsBin(m)) IN
  \/ m.t = "pat" /\ (m.decl # <<>> \/ (~IsBin(m) /\ BadPat(m.p, ns)))
  \/ ~src /\ ~empty /\ ~Has(e.meta, cSource) /\ ~Has(e.meta, cTarget)
  \/ ~Blank(e.com) /\ ~HasNote(e.meta) /\ (IsBin(m) \/ (empty /\ ~src /\ ~Has(e.meta, cTarget) /\ ~Has(e.meta, cSource)))
AnyNote(m) == \E i \in 1..Len(m) : \E j \in 1..Len(Split(m[i].k, 47)) : IsNote(Split(m[i].k, 47)[j])
BadSel(e, ns, src, dict) ==
  LET m == e.val IN
  \/ Len(m.sel) # 1 \/ Len(m.decl) # 1 \/ m.decl[1].n # m.sel[1] \/ (~Blank(e.com) /\ ~AnyNote(e.meta))
  \/ \E i \in 1..Len(m.var) : Len(m.var[i].k) # 1 \/ \E j \in 1..Len(m.var[i].p) : m.var[i].p[j].t = "mku" \/ BadPart(m.var[i].p[j], ns)
  \/ LET x == m.decl[1].e IN
     IF dict THEN x.arg.t # "var" \/ x.fn # cNumber
     ELSE x.fn \notin {cNumber, cInteger, cDevice} /\ \A a \in x.attr : a.n # cSubst
BadEntry(e, s, ns, src) ==
  e.t = "ent" /\ (\/ Len(e.id) # 1 \/ BadMeta(e.meta, ns)
                  \/ IF e.val.t # "sel" THEN BadPlain(e, ns, src)
                     ELSE IF EndsWith(s.id[1], cStringsdict) THEN BadSel(e, ns, src, TRUE) ELSE IF EndsWith(s.id[1], cXcstrings) THEN BadSel(e, ns, src, FALSE) ELSE TRUE)
Refused(r, src) ==
  LET ns == Declared(r.meta) IN
  \/ \E i \in 1..Len(r.meta) : At(r.meta[i].k, 1) # 64
  \/ BadMeta(SelectSeq(r.meta, LAMBDA m : ~StartsWith(m.k, <<64, 120, 109, 108, 110, 115>>)), ns)
  \* neither twice, nor after what is in it
  \/ \E i, j \in 1..Len(r.secs) : i < j /\ StartsWith(r.secs[i].id, r.secs[j].id)
  \/ \E i \in 1..Len(r.secs) : LET s == r.secs[i] IN s.id = <<>> \/ BadMeta(s.meta, ns) \/ \E j \in 1..Len(s.ents) : BadEntry(s.ents[j], s, ns, src)
\* metadata that would be a second value
TwoValues(r, src) ==
  LET name == IF src THEN cSource ELSE cTarget IN
  \E i \in 1..Len(r.secs) : LET s == r.secs[i] IN \E j \in 1..Len(s.ents) : LET e == s.ents[j] IN
    e.t = "ent" /\ \E k \in 1..Len(e.meta) : LET m == e.meta[k] IN HeadOf(m.k) = name /\ At(m.k, Len(name) + 2) # 64
\* what is expected of a resource that is not from a file: comments become notes, the values of placeholders are as in their source
FlatPat(ps) == NormPat([i \in 1..Len(ps) |-> IF ps[i].t = "exp" /\ HasSrc(ps[i]) THEN Txt(SrcOf(ps[i])) ELSE ps[i]])
FlatMsg(m) ==
  CASE m.t = "pat" -> [m EXCEPT !.p = FlatPat(@)]
    [] m.t = "sel" -> [m EXCEPT !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = FlatPat(@)]], !.decl = <<>>, !.sel = <<>>]
    [] OTHER -> Pat(Merge(<<Txt(m.s)>>))
MetaNotes(m, xc) ==
  LET hs == {HeadOf(m[i].k) : i \in {j \in 1..Len(m) : IsNote(HeadOf(m[j].k))}}
      n == Cardinality(hs)
      val(k) == LET i == SelectInSeq(m, LAMBDA x : x.k = k) IN IF i = 0 THEN <<>> ELSE m[i].v
      \* the text before any child
      lead(h) == LET b == SelectSeq(m, LAMBDA x : HeadOf(x.k) = h /\ ~StartsWith(x.k, h \o <<47, 64>>)) IN IF b # <<>> /\ b[1].k = h THEN b[1].v ELSE <<>>
      note(i) == LET h == Nth(cNote, i)  f == val(h \o <<47, 64, 102, 114, 111, 109>>) IN IF Blank(lead(h)) THEN <<>> ELSE <<(IF f = <<>> \/ xc THEN <<>> ELSE f \o <<58, 32>>) \o Strip(lead(h))>>
  IN JoinWith(Concat([i \in 1..n |-> note(i)]), <<10, 10>>)
Expect(e, xc) ==
  IF e.t = "com" THEN Com(NormCom(e.com))
  ELSE LET add == ~Blank(e.com) /\ ~HasNote(e.meta)  plain == e.val.t # "sel" IN
       [id |-> e.id, val |-> FlatMsg(e.val), com |-> IF ~plain THEN e.com ELSE IF IsBin(e.val) THEN <<>> ELSE IF add THEN Strip(e.com) ELSE MetaNotes(e.meta, xc),
        meta |-> MetaByHead(e.meta \o IF plain /\ add THEN <<M(cNote, e.com)>> ELSE <<>>)]
FlatEnt(e, xc) == IF e.t = "com" THEN Com(NormCom(e.com)) ELSE [id |-> e.id, val |-> FlatMsg(e.val), com |-> e.com, meta |-> MetaByHead(e.meta)]
XcodeSec(s) == EndsWith(s.id[1], cXcstrings) /\ \E i \in 1..Len(s.meta) : s.meta[i] = M(cToolId, cXcode)
FlatSecs(r, E(_, _)) == {LET s == r.secs[i] IN [id |-> s.id, com |-> NormCom(s.com), meta |-> s.meta, ents |-> [j \in 1..Len(s.ents) |-> E(s.ents[j], XcodeSec(s))]] : i \in 1..Len(r.secs)}
\* groups whose file or parent has no section of its own
ImpliedIds(r) == LET ids == {r.secs[i].id : i \in 1..Len(r.secs)} IN UNION {{SubSeq(x, 1, n) : n \in 1..(Len(x) - 1)} : x \in ids} \ ids
Expected(r) == [com |-> NormCom(r.com), meta |-> Range(r.meta), secs |-> FlatSecs(r, Expect) \cup {[id |-> p, com |-> <<>>, meta |-> <<>>, ents |-> <<>>] : p \in ImpliedIds(r)}]
Flat(r) == [com |-> NormCom(r.com), meta |-> Range(r.meta), secs |-> FlatSecs(r, FlatEnt)]
\* --------------------------------------------------------------- verdicts
If(c, n) == IF c THEN {} ELSE {n}
XliffNs == {<<117, 114, 110, 58, 111, 97, 115, 105, 115, 58, 110, 97, 109, 101, 115, 58, 116, 99, 58, 120, 108, 105, 102, 102, 58, 100, 111, 99, 117, 109, 101, 110, 116, 58, 49, 46, 48>>, <<117, 114, 110, 58, 111, 97, 115, 105, 115, 58, 110, 97, 109, 101, 115, 58, 116, 99, 58, 120, 108, 105, 102, 102, 58, 100, 111, 99, 117, 109, 101, 110, 116, 58, 49, 46, 49>>, <<117, 114, 110, 58, 111, 97, 115, 105, 115, 58, 110, 97, 109, 101, 115, 58, 116, 99, 58, 120, 108, 105, 102, 102, 58, 100, 111, 99, 117, 109, 101, 110, 116, 58, 49, 46, 50>>}
BadRoot(d) == \/ d.version \notin {<<<<49, 46, 48>>>>, <<<<49, 46, 49>>>>, <<<<49, 46, 50>>>>} \/ (d.ns # <<>> /\ d.ns \notin XliffNs)
              \/ d.tag # (IF d.ns = <<>> THEN <<120, 108, 105, 102, 102>> ELSE <<123>> \o d.ns \o <<125, 120, 108, 105, 102, 102>>)
ReadDec(x) == [x EXCEPT !.meta = Range(@)]
Written(r, out, src) ==
  IF Refused(r, src) THEN If(out.k = "err" /\ out.ve, "not_refused")
  ELSE IF out.k # "ok" THEN {"refused"}
  ELSE IF BadDoc(out.d, src) THEN {"unreadable"} ELSE If(Norm(Decode(out.d, src)) = Norm(r), "round_trip")
XliffVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] e.op = "parse" ->
         IF BadRoot(e.d) THEN If(e.out.k = "err" /\ e.out.ve, "accepted")
         ELSE IF Unsure(e.d, e.src) THEN {}
         ELSE IF BadDoc(e.d, e.src) THEN If(e.out.k = "err" /\ e.out.ve, "accepted")
         ELSE IF e.out.k # "ok" THEN {"rejected"}
         ELSE If(Read(e.out.res) = ReadDec(Decode(e.d, e.src)), "parsed") \cup Written(SetRes(e.out.res), e.again, e.src)
              \cup If(e.again.k = "ok" => e.again.same, "unstable")
    [] e.op = "ser" ->
         LET r == SetRes(e.res) IN
         IF TwoValues(r, e.src) THEN {} ELSE
         IF Refused(r, e.src) THEN If(e.out.k = "err" /\ e.out.ve, "not_refused")
         ELSE IF e.out.k # "ok" THEN {"refused"}
         ELSE IF BadDoc(e.out.d, e.src) THEN {"unreadable"}
         ELSE If(Flat(Decode(e.out.d, e.src)) = Expected(r), "written")
    [] e.op = "pmsg" -> LET p == Merge(Pattern([kids |-> e.kids], e.xc)) IN
         IF e.out.k # "ok" THEN {"rejected"}
         ELSE If(JoinMsg(SetMsg(e.out.m)) = Pat(p), "parsed")
              \cup (IF BadPat(p, {<<120, 109, 108>>}) THEN If(e.again.k = "err" /\ e.again.ve, "not_refused") ELSE IF e.again.k # "ok" THEN {"refused"} ELSE If(Merge(Pattern([kids |-> e.again.kids], e.xc)) = p, "round_trip"))
    [] e.op = "smsg" -> LET m == SetMsg(e.m) IN
         IF m.t # "pat" \/ m.decl # <<>> \/ BadPat(m.p, {<<120, 109, 108>>}) THEN If(e.out.k = "err" /\ e.out.ve, "not_refused")
         ELSE IF e.out.k # "ok" THEN {"refused"} ELSE If(Merge(Pattern([kids |-> e.out.kids], FALSE)) = FlatPat(m.p), "written")
=============================================================================
