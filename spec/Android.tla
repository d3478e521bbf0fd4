------------------------------ MODULE Android -------------------------------
(* C21: Android strings.xml.  A document is given as its XML tree: nodes are *)
(* [t |-> "txt", s], [t |-> "ent", n], [t |-> "el", n, g, at, kids], and     *)
(* comments [t |-> "com", s, nl] between entries.  Decode is what the        *)
(* document means; Flat is a message as a list of characters and marks, in   *)
(* which text written as HTML or printf is as its source.                    *)
EXTENDS Text, XmlComment
\* ------------------------------------------------------------- characters
AsciiWhite == {9, 10, 11, 12, 13, 32}
Word(c) == c \in Digit \cup Alpha \cup {95} \/ (c \in 192..767 /\ c # 215 /\ c # 247) \/ c \in 1024..1153
NameStart(c) == c \in Alpha \cup {95} \/ (c \in 192..767 /\ c # 215 /\ c # 247) \/ (c \in 880..8191 /\ c # 894) \/ c \in 8204..8205 \/ c \in 8304..8591 \/ c \in 11264..12271 \/ c \in 12289..55295 \/ c \in 63744..64975 \/ c \in 65008..65533 \/ c \in 65536..983039
NameRest(c) == NameStart(c) \/ c \in Digit \/ c \in {45, 46, 183} \/ c \in 768..879 \/ c \in 8255..8256
IsName(s) == Len(s) > 0 /\ NameStart(s[1]) /\ All(s, NameRest)
XmlChar(c) == c \in {9, 10, 13} \/ c \in 32..55295 \/ c \in 57344..65533 \/ c \in 65536..1114111
Backslash == 92
Quote == 34
Lt == 60
Gt == 62
Pct == 37
cNo == <<110, 111>>
cSource == <<115, 111, 117, 114, 99, 101>>
cTranslate == <<116, 114, 97, 110, 115, 108, 97, 116, 101>>
cId == <<105, 100>>
cArg == <<97, 114, 103>>
cG == <<120, 108, 105, 102, 102, 58, 103>>
cEntity == <<101, 110, 116, 105, 116, 121>>
cReference == <<114, 101, 102, 101, 114, 101, 110, 99, 101>>
cHtml == <<104, 116, 109, 108>>
cNumber == <<110, 117, 109, 98, 101, 114>>
cQuantity == <<113, 117, 97, 110, 116, 105, 116, 121>>
cOther == <<111, 116, 104, 101, 114>>
cName == <<110, 97, 109, 101>>
cItem == <<105, 116, 101, 109>>
Categories == {<<122, 101, 114, 111>>, <<111, 110, 101>>, <<116, 119, 111>>, <<102, 101, 119>>, <<109, 97, 110, 121>>, cOther}
\* ----------------------------------------------------------------- parts
Txt(s) == [t |-> "txt", s |-> s]
Lit(s) == [t |-> "lit", s |-> s]
Var(s) == [t |-> "var", s |-> s]
Opts(at) == {[n |-> a.k, v |-> Lit(a.v)] : a \in Range(at)}
Source(s) == [n |-> cSource, v |-> Lit(s)]
NoTranslate == [n |-> cTranslate, v |-> Lit(cNo)]
Exp(arg, fn, opt, attr) == [t |-> "exp", arg |-> arg, fn |-> fn, opt |-> opt, attr |-> attr]
Mark(kind, name, opt, attr) == [t |-> "mku", kind |-> kind, name |-> name, opt |-> opt, attr |-> attr]
Protected(p) == p.t # "txt" /\ NoTranslate \in p.attr
\* as recorded, with the options and attributes of parts as sets
SetPart(p) == IF p.t = "txt" THEN p ELSE [p EXCEPT !.opt = Range(@), !.attr = Range(@)]
SetPat(ps) == [i \in 1..Len(ps) |-> SetPart(ps[i])]
SetMsg(m) ==
  CASE m.t = "pat" -> [m EXCEPT !.p = SetPat(@), !.decl = [i \in 1..Len(@) |-> [@[i] EXCEPT !.e = SetPart(@)]]]
    [] m.t = "sel" -> [m EXCEPT !.decl = [i \in 1..Len(@) |-> [@[i] EXCEPT !.e = SetPart(@)]], !.var = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = SetPat(@)]]]
    [] OTHER -> m
\* --------------------------------------------------------------- escapes
IsU(s, i) == At(s, i) = Backslash /\ At(s, i + 1) = 117 /\ i + 5 <= Len(s) /\ \A j \in (i + 2)..(i + 5) : s[j] \in HexDigit
HexAt(s, i) == ((HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])) * 16 + HexVal(s[i + 4])) * 16 + HexVal(s[i + 5])
IsEsc(s, i) == At(s, i) = Backslash /\ (IsU(s, i) \/ (i < Len(s) /\ s[i + 1] # 10))
\* the code units of an escape and its length
EscLen(s, i) == IF IsU(s, i) THEN 6 ELSE 2
\* a run of unicode escapes from i on
RECURSIVE URun(_, _)
URun(s, i) == IF IsU(s, i) THEN <<HexAt(s, i)>> \o URun(s, i + 6) ELSE <<>>
RECURSIVE Utf16(_)
Utf16(us) ==
  IF us = <<>> THEN <<>>
  ELSE IF Len(us) > 1 /\ us[1] \in 55296..56319 /\ us[2] \in 56320..57343
       THEN <<65536 + (us[1] - 55296) * 1024 + (us[2] - 56320)>> \o Utf16(SubSeq(us, 3, Len(us)))
       ELSE <<us[1]>> \o Utf16(Tail(us))
Char1(c) == IF c = 110 THEN 10 ELSE IF c = 116 THEN 9 ELSE c
\* the length and decoded value of what is escaped at i
EscAt(s, i) == IF IsU(s, i) THEN LET u == URun(s, i) IN [n |-> 6 * Len(u), v |-> Utf16(u)] ELSE [n |-> 2, v |-> <<Char1(s[i + 1])>>]
RECURSIVE Unescape(_)
Unescape(s) ==
  LET i == SelectInSeq([j \in 1..Len(s) |-> j], LAMBDA j : IsEsc(s, j)) IN
  IF i = 0 THEN s ELSE LET e == EscAt(s, i) IN SubSeq(s, 1, i - 1) \o e.v \o Unescape(From(s, i + e.n))
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UChar(c) == <<Backslash, 117, Hex(c \div 4096), Hex((c \div 256) % 16), Hex((c \div 16) % 16), Hex(c % 16)>>
Control(c) == c \in 0..31 \/ c \in 127..159 \/ c \in 55296..57343 \/ c \in {65534, 65535} \/ (c \in PyWhite /\ c # 32)
EscapeChar(s, i) ==
  LET c == s[i] IN
  CASE c \in {Backslash, 39, Quote} -> <<Backslash, c>>
    [] c = 10 -> <<Backslash, 110>>
    [] c = 9 -> <<Backslash, 116>>
    [] Control(c) -> UChar(c)
    [] c = 32 /\ At(s, i - 1) = 32 -> UChar(32)
    [] OTHER -> <<c>>
Escape(s) == Concat([i \in 1..Len(s) |-> EscapeChar(s, i)])
\* ------------------------------------------------------------- variables
\* the part of an index such as %1$ at i
IdxAt(s, i) == IF At(s, i) \in 49..57 /\ At(s, i + 1) = 36 THEN 2 ELSE 0
VarName(s) ==
  IF At(s, 1) = Pct THEN IF IdxAt(s, 2) > 0 THEN cArg \o <<s[2]>> ELSE cArg
  ELSE LET n == SelectSeq(s, NameRest)  k == SelectInSeq(n, NameStart) IN IF k = 0 THEN cArg ELSE From(n, k)
\* -------------------------------------------------------- protected spans
SpanArg(s, at) ==
  LET id == SelectInSeq(at, LAMBDA a : a.k = cId /\ a.v # <<>>)
      name(fn, arg, src) == Exp(arg, fn, Opts(at), {NoTranslate} \cup src)
      fn == IF at = <<>> THEN <<>> ELSE cG
  IN IF id > 0 THEN name(fn, Var(VarName(at[id].v)), {Source(s)})
     ELSE IF At(s, 1) \in {Pct, 123} THEN name(fn, Var(VarName(s)), {Source(s)})
     ELSE name(fn, Lit(Unescape(s)), IF Escape(Unescape(s)) = s THEN {} ELSE {Source(s)})
SpanPart(p, at) == IF p.t = "txt" THEN SpanArg(p.s, at) ELSE [p EXCEPT !.attr = @ \cup {NoTranslate}, !.opt = Opts(at)]
RECURSIVE Flatten(_)
Flatten(kids) ==
  Concat([i \in 1..Len(kids) |->
    LET k == kids[i] IN
    CASE k.t = "txt" -> <<Txt(k.s)>>
      [] k.t = "ent" -> <<Exp(Var(k.n), cEntity, {}, {})>>
      [] k.t = "el" /\ ~k.g -> <<Mark("open", k.n, Opts(k.at), {})>> \o Flatten(k.kids) \o <<Mark("close", k.n, {}, {})>>
      [] OTHER -> LET b == Flatten(k.kids) IN
                  IF \E p \in Range(b) : p.t = "mku" \/ Protected(p)
                  THEN <<Mark("open", k.n, Opts(k.at), {NoTranslate})>> \o b \o <<Mark("close", k.n, {}, {NoTranslate})>>
                  ELSE IF b = <<>> THEN <<SpanArg(<<>>, k.at)>> ELSE [j \in 1..Len(b) |-> SpanPart(b[j], k.at)]])
\* ----------------------------------------------------------------- quotes
TagLike(s) == \E i \in 1..Len(s) : s[i] = Lt /\ \E j \in (i + 2)..Len(s) : s[j] = Gt /\ \A k \in (i + 1)..(j - 1) : s[k] # 10
RECURSIVE Quotes(_, _)
Quotes(s, i) == IF i > Len(s) THEN <<>> ELSE IF s[i] = Backslash THEN Quotes(s, i + 2) ELSE IF s[i] = Quote THEN <<i>> \o Quotes(s, i + 1) ELSE Quotes(s, i + 1)
Collapse(s, W) == Concat([i \in 1..Len(s) |-> IF s[i] \notin W THEN <<s[i]>> ELSE IF At(s, i - 1) \in W THEN <<>> ELSE <<32>>])
Unquote(st, p, W, literal) ==
  IF p.t # "txt" THEN [out |-> Append(st.out, p), q |-> st.q /\ p.t # "mku" /\ ~Protected(p)]
  ELSE LET qs == IF literal \/ TagLike(p.s) THEN <<>> ELSE Quotes(p.s, 1)
           n == Len(qs)
           seg(i) == SubSeq(p.s, IF i = 0 THEN 1 ELSE qs[i] + 1, IF i = n THEN Len(p.s) ELSE qs[i + 1] - 1)
           quoted(i) == st.q # (i % 2 = 1)
           segs == [i \in 1..(n + 1) |-> Txt(IF quoted(i - 1) THEN seg(i - 1) ELSE Collapse(seg(i - 1), W))]
       IN [out |-> st.out \o SelectSeq(segs, LAMBDA x : x.s # <<>>), q |-> quoted(n)]
\* ----------------------------------------------------------------- inline
TagEnd(s, i) ==
  LET k == SelectInSeq(From(s, i + 1), LAMBDA c : c \in {Pct, Gt}) IN
  IF At(s, i) = Lt /\ k > 1 /\ s[i + k] = Gt THEN i + k ELSE 0
BlockNames == {<<100, 105, 118>>, <<112>>, <<100, 100>>, <<100, 116>>, <<108, 105>>} \cup {<<104, d>> : d \in (49..54) \cup {114}} \cup {<<x, 108>> : x \in {100, 111, 117}} \cup {<<47, x, 108>> : x \in {100, 111, 117}}
Block(tag) == \E n \in BlockNames : StartsWith(From(tag, 2), n) /\ ~Word(At(tag, Len(n) + 2))
Break(tag) == tag \in {<<Lt, 98, 114, Gt>>, <<Lt, 98, 114, 47, Gt>>, <<Lt, 104, 114, Gt>>, <<Lt, 104, 114, 47, Gt>>}
Flag == {45, 35, 43, 32, 48, 44, 40}
DigitDot == Digit \cup {46}
RECURSIVE DotRun(_, _)
DotRun(s, i) == IF At(s, i) \in DigitDot THEN 1 + DotRun(s, i + 1) ELSE 0
Conv(c) == c # -1 /\ c \notin PyWhite /\ c \notin {Backslash, Lt, Quote}
\* the end of a printf specifier whose flags start at i, or 0
AfterDigits(s, i) == IF At(s, i) \in {84, 116} /\ Conv(At(s, i + 1)) THEN i + 1 ELSE IF Conv(At(s, i)) THEN i ELSE 0
RECURSIVE Digits(_, _, _)
Digits(s, i, n) == IF AfterDigits(s, i + n) > 0 THEN AfterDigits(s, i + n) ELSE IF n = 0 THEN 0 ELSE Digits(s, i, n - 1)
AfterIdx(s, i) ==
  LET d(k) == Digits(s, k, DotRun(s, k)) IN
  IF At(s, i) \in Flag /\ d(i + 1) > 0 THEN d(i + 1) ELSE d(i)
RelIdx(s, i) == At(s, i) = Lt /\ LET j == IF At(s, i + 1) \in Flag THEN {i + 1, i + 2} ELSE {i + 1} IN \E k \in j : \E n \in 0..DotRun(s, k) : At(s, k + n) \in Alpha
PctEnd(s, i) ==
  LET n == IF IdxAt(s, i + 1) > 0 THEN 2 ELSE IF RelIdx(s, i + 1) THEN 1 ELSE 0 IN
  IF At(s, i) # Pct THEN 0 ELSE IF n > 0 /\ AfterIdx(s, i + 1 + n) > 0 THEN AfterIdx(s, i + 1 + n) ELSE AfterIdx(s, i + 1)
\* where the last digit or flag is, t or T before the last one is a part of the conversion
ConvOf(s, i, e) ==
  LET two == \* the conversion is of two characters
        At(s, e - 1) \in {84, 116} /\ e - 1 > i
  IN IF two THEN <<s[e - 1], s[e]>> ELSE <<s[e]>>
ConvFn(c) ==
  CASE Len(c) = 2 -> <<100, 97, 116, 101, 116, 105, 109, 101>>
    [] c[1] \in {98, 66} -> <<98, 111, 111, 108, 101, 97, 110>>
    [] c[1] \in {99, 67, 115, 83} -> <<115, 116, 114, 105, 110, 103>>
    [] c[1] \in {100, 104, 72, 111, 120, 88} -> <<105, 110, 116, 101, 103, 101, 114>>
    [] c[1] \in {97, 65, 101, 69, 102, 103, 71} -> cNumber
    [] OTHER -> <<>>
Flush(st) == IF st.acc = <<>> THEN st ELSE [st EXCEPT !.out = Append(@, Txt(st.acc)), !.acc = <<>>]
AddText(st, c) == IF c = <<>> THEN st ELSE [st EXCEPT !.acc = @ \o (IF st.br /\ c[1] = 32 THEN <<10>> \o Tail(c) ELSE c), !.br = FALSE]
Printf(st, src, c) ==
  LET s0 == Flush(st) IN
  IF c = <<Pct>> THEN [s0 EXCEPT !.out = Append(@, Exp(Lit(c), <<>>, {}, {Source(src)}))]
  ELSE IF c = <<110>> THEN [s0 EXCEPT !.out = Append(@, Exp(Lit(<<10>>), <<>>, {}, {Source(src)}))]
  ELSE IF At(src, 2) = Lt
       THEN IF st.prev = <<>> THEN [s0 EXCEPT !.err = TRUE]
            ELSE LET l == st.prev[Len(st.prev)] IN [s0 EXCEPT !.out = Append(@, Exp(Var(st.prev), ConvFn(c), {}, {Source(<<Pct>> \o (IF l \in 49..57 THEN <<l, 36>> ELSE <<>>) \o From(src, 3))}))]
  ELSE [s0 EXCEPT !.out = Append(@, Exp(Var(VarName(src)), ConvFn(c), {}, {Source(src)})), !.prev = VarName(src)]
Html(st, tag, chunk) ==
  LET n == Len(st.acc)
      s0 == IF chunk /\ At(st.acc, n) = 32 /\ Block(tag) THEN [st EXCEPT !.out = Append(@, Txt(SubSeq(st.acc, 1, n - 1) \o <<10>>)), !.acc = <<>>] ELSE Flush(st)
  IN [s0 EXCEPT !.out = Append(@, Exp(Lit(Unescape(tag)), cHtml, {}, {})), !.br = Break(tag)]
\* p: where the text not yet taken starts
RECURSIVE Scan(_, _, _, _)
Scan(s, i, p, st) ==
  IF i > Len(s) THEN AddText(st, From(s, p))
  ELSE IF s[i] \notin {Backslash, Lt, Pct} THEN Scan(s, i + 1, p, st)
  ELSE LET s0 == [AddText(st, SubSeq(s, p, i - 1)) EXCEPT !.br = FALSE] IN
       CASE IsEsc(s, i) -> LET e == EscAt(s, i) IN Scan(s, i + e.n, i + e.n, [s0 EXCEPT !.acc = @ \o e.v])
         [] TagEnd(s, i) > 0 -> Scan(s, TagEnd(s, i) + 1, TagEnd(s, i) + 1, Html(s0, SubSeq(s, i, TagEnd(s, i)), i > p))
         [] PctEnd(s, i) > 0 -> Scan(s, PctEnd(s, i) + 1, PctEnd(s, i) + 1, Printf(s0, SubSeq(s, i, PctEnd(s, i)), ConvOf(s, i, PctEnd(s, i))))
         [] OTHER -> Scan(s, i + 1, p, st)
Inline(parts) ==
  LET end == FoldLeft(LAMBDA st, p : IF p.t = "txt" THEN Scan(p.s, 1, 1, st) ELSE LET f == Flush(st) IN [f EXCEPT !.out = Append(@, p), !.br = FALSE],
                      [out |-> <<>>, acc |-> <<>>, br |-> FALSE, prev |-> <<>>, err |-> FALSE], parts)
  IN [err |-> end.err, p |-> Flush(end).out]
\* -------------------------------------------------------------- messages
IsW(s) == Len(s) > 0 /\ All(s, Word)
IsRef(s) ==
  LET c == Split(From(s, 2), 58)  t == Split(c[Len(c)], 47) IN
  /\ Len(s) > 1
  /\ Len(c) <= 2 /\ (Len(c) = 2 => IsW(c[1])) /\ \A x \in Range(t) : IsW(x)
  /\ (s[1] = 64 /\ Len(t) = 2) \/ (s[1] = 63 /\ Len(t) <= 2)
TrimParts(ps, W) ==
  LET n == Len(ps)
      a == IF n > 0 /\ ps[1].t = "txt" THEN [ps EXCEPT ![1].s = TrimLeft(@, W)] ELSE ps
  IN IF n > 0 /\ a[n].t = "txt" THEN [a EXCEPT ![n].s = TrimRight(@, W)] ELSE a
\* [err, p] of the content of an element
Pattern(kids, o) ==
  LET W == IF o.ascii THEN AsciiWhite ELSE PyWhite IN
  IF Len(kids) = 1 /\ kids[1].t = "txt" /\ IsRef(kids[1].s) THEN [err |-> FALSE, p |-> <<Exp(Lit(kids[1].s), cReference, {}, {})>>]
  ELSE Inline(FoldLeft(LAMBDA st, p : Unquote(st, p, W, o.lit), [out |-> <<>>, q |-> FALSE], TrimParts(Flatten(kids), W)).out)
Pat(p) == [t |-> "pat", decl |-> <<>>, p |-> p]
Plural(vs) == [t |-> "sel", decl |-> <<[n |-> cQuantity, e |-> Exp(Var(cQuantity), cNumber, {}, {})]>>, sel |-> <<cQuantity>>, var |-> vs]
\* -------------------------------------------------------------- comments
Com(c) == [t |-> "com", com |-> c]
Ent(id, val, com, meta) == [t |-> "ent", id |-> id, val |-> val, props |-> <<>>, com |-> com, meta |-> meta]
\* -------------------------------------------------------------- documents
AttrOf(el, k) == LET i == SelectInSeq(el.at, LAMBDA a : a.k = k) IN IF i = 0 THEN <<>> ELSE el.at[i].v
MetaOf(el) == SelectSeq(el.at, LAMBDA a : a.k # cName)
Num(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
cSpaceColon(k) == k \o <<58, 32>>
PluralItem(st, k, o) ==
  IF k.t = "com" THEN [st EXCEPT !.com = Append(@, k.s)]
  ELSE LET q == AttrOf(k, cQuantity)  p == Pattern(k.kids, o)
           key == IF q = cOther THEN [t |-> "any", s |-> <<61>> \o q] ELSE [t |-> "key", s |-> q]
           had == SelectInSeq(st.var, LAMBDA v : v.k = <<key>>)
           v == [k |-> <<key>>, p |-> p.p]
       IN IF k.t # "el" \/ k.n # cItem \/ q \notin Categories \/ p.err THEN [st EXCEPT !.err = TRUE]
          ELSE [var |-> IF had > 0 THEN [st.var EXCEPT ![had] = v] ELSE Append(st.var, v), err |-> st.err, com |-> <<>>,
                pend |-> st.pend \o (IF st.var = <<>> THEN st.com ELSE LET n == SelectSeq(st.com, LAMBDA c : c # <<>>) IN [i \in 1..Len(n) |-> cSpaceColon(q) \o n[i]])]
ArrayItem(st, k, name, meta, o) ==
  IF k.t = "com" THEN [st EXCEPT !.pend = Append(@, k.s)]
  ELSE LET p == Pattern(k.kids, o) IN
       IF k.t # "el" \/ k.n # cItem \/ p.err THEN [st EXCEPT !.err = TRUE]
       ELSE [err |-> st.err, pend |-> <<>>, n |-> st.n + 1, ents |-> Append(st.ents, Ent(<<name, Num(st.n)>>, Pat(p.p), CommentStr(st.pend), meta))]
Leftover(pend) == IF pend = <<>> THEN <<>> ELSE <<Com(CommentStr(pend))>>
cString == <<115, 116, 114, 105, 110, 103>>
cArray == cString \o <<45, 97, 114, 114, 97, 121>>
cPlurals == <<112, 108, 117, 114, 97, 108, 115>>
Child(st, k, o) ==
  IF k.t = "com"
  THEN IF k.nl > 1 THEN [st EXCEPT !.ents = Append(@, Com(CommentStr(Append(st.pend, k.s)))), !.pend = <<>>]
       ELSE [st EXCEPT !.pend = Append(@, k.s)]
  ELSE LET name == AttrOf(k, cName)  add(es, e) == [ents |-> st.ents \o es, pend |-> <<>>, err |-> st.err \/ e] IN
       IF k.t # "el" \/ name = <<>> THEN [st EXCEPT !.err = TRUE]
       ELSE CASE k.n = cString -> LET p == Pattern(k.kids, o) IN add(<<Ent(<<name>>, Pat(p.p), CommentStr(st.pend), MetaOf(k))>>, p.err)
              [] k.n = cPlurals -> LET r == FoldLeft(LAMBDA s, x : PluralItem(s, x, o), [var |-> <<>>, err |-> FALSE, com |-> <<>>, pend |-> st.pend], k.kids) IN
                                   add(<<Ent(<<name>>, Plural(r.var), CommentStr(r.pend \o r.com), MetaOf(k))>>, r.err)
              [] k.n = cArray -> LET r == FoldLeft(LAMBDA s, x : ArrayItem(s, x, name, MetaOf(k), o), [err |-> FALSE, pend |-> st.pend, n |-> 0, ents |-> <<>>], k.kids) IN
                                 add(r.ents \o Leftover(r.pend), r.err)
              [] OTHER -> [st EXCEPT !.err = TRUE]
\* entity values: & and " are written as references
cAmp == <<97, 109, 112>>
cQuot == <<113, 117, 111, 116>>
RefEnd(s, i) == LET k == IndexFrom(s, 59, i) IN IF At(s, i) = 38 /\ k > 0 /\ IsName(SubSeq(s, i + 1, k - 1)) THEN k ELSE 0
RECURSIVE EntityScan(_, _, _)
EntityScan(s, i, st) ==
  IF i > Len(s) THEN Flush(st).out
  ELSE LET e == RefEnd(s, i)  n == SubSeq(s, i + 1, e - 1) IN
       IF e = 0 THEN EntityScan(s, i + 1, [st EXCEPT !.acc = Append(@, s[i])])
       ELSE IF n \in {cAmp, cQuot} THEN EntityScan(s, e + 1, [st EXCEPT !.acc = Append(@, IF n = cAmp THEN 38 ELSE Quote)])
       ELSE EntityScan(s, e + 1, [Flush(st) EXCEPT !.out = Append(@, Exp(Var(n), cEntity, {}, {}))])
EntityValue(s) == EntityScan(s, 1, [out |-> <<>>, acc |-> <<>>])
cENTITY == <<33, 69, 78, 84, 73, 84, 89>>
Sec(id, ents) == [id |-> id, ents |-> ents, com |-> <<>>, meta |-> <<>>]
\* [err, res]: d has the comments before the root, its attributes and namespaces, entities, and children
Decode(d, o) ==
  LET end == FoldLeft(LAMBDA st, k : Child(st, k, o), [ents |-> <<>>, pend |-> <<>>, err |-> d.root # <<114, 101, 115, 111, 117, 114, 99, 101, 115>>], d.kids)
      ents == [i \in 1..Len(d.ents) |-> Ent(<<d.ents[i].n>>, Pat(EntityValue(d.ents[i].s)), <<>>, <<>>)]
  IN [err |-> end.err,
      res |-> [com |-> CommentStr(d.coms), meta |-> d.meta, secs |-> (IF ents = <<>> THEN <<>> ELSE <<Sec(<<cENTITY>>, ents)>>) \o <<Sec(<<>>, end.ents \o Leftover(end.pend))>>]]
\* ------------------------------------------------------------------- flat
Chars(s) == [i \in 1..Len(s) |-> [k |-> "ch", c |-> s[i]]]
AttrVal(p, n) == LET S == {a \in p.attr : a.n = n} IN IF S = {} THEN <<>> ELSE <<(CHOOSE a \in S : TRUE).v>>
Src(p) == LET v == AttrVal(p, cSource) IN IF v # <<>> /\ v[1].t = "lit" THEN <<v[1].s>> ELSE <<>>
FlatSpan(p) ==
  LET opt == IF p.fn = <<>> THEN {} ELSE p.opt
      hasId == \E a \in opt : a.n = cId /\ a.v.t = "lit" /\ a.v.s # <<>>
      raw == IF Src(p) # <<>> THEN Src(p)[1] ELSE p.arg.s
      id == IF p.arg.t = "var" /\ ~hasId /\ (At(raw, 1) \notin {Pct, 123} \/ VarName(raw) # p.arg.s) THEN {[n |-> cId, v |-> Lit(p.arg.s)]} ELSE {}
      mid == IF p.fn = cEntity THEN <<[k |-> "ent", n |-> p.arg.s]>> ELSE Chars(IF Src(p) # <<>> THEN Unescape(raw) ELSE raw)
  IN <<[k |-> "open", n |-> cG, o |-> IF p.fn = cEntity THEN opt ELSE {x \in opt : id = {} \/ x.n # cId} \cup id]>> \o mid \o <<[k |-> "close", n |-> cG]>>
FlatPart(p) ==
  CASE p.t = "txt" -> Chars(p.s)
    [] p.t = "exp" /\ Protected(p) -> FlatSpan(p)
    [] p.t = "exp" /\ p.fn = cEntity -> <<[k |-> "ent", n |-> p.arg.s]>>
    [] p.t = "exp" -> Chars(IF Src(p) # <<>> THEN Src(p)[1] ELSE p.arg.s)
    [] OTHER -> LET n == IF Protected(p) THEN cG ELSE p.name IN
                (IF p.kind \in {"open", "standalone"} THEN <<[k |-> "open", n |-> n, o |-> p.opt]>> ELSE <<>>) \o (IF p.kind \in {"close", "standalone"} THEN <<[k |-> "close", n |-> n]>> ELSE <<>>)
FlatPat(ps) == IF Len(ps) = 1 /\ ps[1].t = "exp" /\ ps[1].fn = cReference THEN <<[k |-> "ref", s |-> ps[1].arg.s]>> ELSE Concat([i \in 1..Len(ps) |-> FlatPart(ps[i])])
\* the categories of plurals; there is only one other
KeyName(k, other) == IF k.t = "key" THEN k.s ELSE IF other THEN From(k.s, 2) ELSE cOther
FlatMsg(m) ==
  CASE m.t = "str" -> [t |-> "pat", p |-> Chars(m.s)]
    [] m.t = "pat" -> [t |-> "pat", p |-> FlatPat(m.p)]
    [] OTHER -> LET other == \E v \in Range(m.var) : v.k = <<[t |-> "key", s |-> cOther]>> IN [t |-> "sel", v |-> [i \in 1..Len(m.var) |-> [k |-> KeyName(m.var[i].k[1], other), p |-> FlatPat(m.var[i].p)]]]
FlatEnt(e) == IF e.t = "com" THEN Com(NormCom(e.com)) ELSE [t |-> "ent", id |-> e.id, val |-> FlatMsg(e.val), com |-> NormCom(e.com), meta |-> Range(e.meta)]
\* declared namespaces that are used may be added
cXliffNs == <<120, 109, 108, 110, 115, 58, 120, 108, 105, 102, 102>>
HeadMeta(m) == {x \in Range(m) : x.k # cXliffNs}
Rest_(r) == Concat([i \in 1..Len(r.secs) |-> LET s == r.secs[i] IN (IF s.com = <<>> THEN <<>> ELSE <<Com(s.com)>>) \o (IF s.id = <<>> THEN s.ents ELSE <<>>)])
FlatRes(r) ==
  LET ents == Concat([i \in 1..Len(r.secs) |-> IF r.secs[i].id = <<>> THEN <<>> ELSE r.secs[i].ents])
      rest == Rest_(r)
  IN [com |-> NormCom(r.com), meta |-> r.meta, ents |-> [i \in 1..Len(ents) |-> FlatEnt(ents[i])], rest |-> [i \in 1..Len(rest) |-> FlatEnt(rest[i])]]
\* ---------------------------------------------------------------- refusal
AllXml(s) == All(s, XmlChar)
BadPart(p) ==
  CASE p.t = "txt" -> FALSE
    [] p.t = "mku" -> \E a \in p.opt : a.v.t # "lit" \/ ~AllXml(a.v.s)
    [] Protected(p) -> (p.fn = cEntity /\ p.arg.t # "var") \/ (p.fn # <<>> /\ \E a \in p.opt : a.v.t # "lit" \/ ~AllXml(a.v.s)) \/ (Src(p) # <<>> /\ p.fn # cEntity /\ ~AllXml(Src(p)[1]))
    [] p.fn = cEntity -> p.arg.t # "var"
    [] AttrVal(p, cSource) # <<>> -> Src(p) = <<>> \/ ~AllXml(Src(p)[1])
    [] OTHER -> p.arg.t # "lit"
\* open elements after each part; <<FALSE>> when they do not nest
Nest(ps) ==
  FoldLeft(LAMBDA st, p : IF p.t # "mku" \/ ~st.ok \/ p.kind = "standalone" THEN st
                          ELSE LET n == IF Protected(p) THEN cG ELSE p.name  d == Len(st.open) IN
                               IF p.kind = "open" THEN [st EXCEPT !.open = Append(@, n)]
                               ELSE IF d > 0 /\ st.open[d] = n THEN [st EXCEPT !.open = SubSeq(@, 1, d - 1)] ELSE [st EXCEPT !.ok = FALSE],
           [ok |-> TRUE, open |-> <<>>], ps)
BadPat(ps) ==
  IF Len(ps) = 1 /\ ps[1].t = "exp" /\ ps[1].fn = cReference THEN ps[1].arg.t # "lit" \/ ~IsRef(ps[1].arg.s)
  ELSE (\E p \in Range(ps) : BadPart(p)) \/ ~Nest(ps).ok \/ Nest(ps).open # <<>>
BadMsg(m, sel) ==
  CASE m.t = "str" -> FALSE
    [] m.t = "pat" -> m.decl # <<>> \/ BadPat(m.p)
    [] OTHER -> \/ ~sel \/ Len(m.sel) # 1 \/ Len(m.decl) # 1
                \/ (m.decl[1].n # m.sel[1] \/ m.decl[1].e.fn # cNumber)
                \/ (LET other == \E v \in Range(m.var) : v.k = <<[t |-> "key", s |-> cOther]>> IN
                    \E v \in Range(m.var) : Len(v.k) # 1 \/ KeyName(v.k[1], other) \notin Categories \/ BadPat(v.p))
BadCom(c) == ~AllXml(Strip(c))
BadMeta(m) == \E i \in 1..Len(m) : m[i].k = cName \/ ~AllXml(m[i].v) \/ \E j \in 1..(i - 1) : m[j].k = m[i].k
BadEntity(e) ==
  IF e.t = "com" THEN TRUE
  ELSE \/ e.com # <<>> \/ e.meta # <<>> \/ Len(e.id) # 1 \/ ~IsName(e.id[1])
       \/ LET m == SetMsg(e.val) IN
          CASE m.t = "str" -> ~AllXml(m.s)
            [] m.t = "sel" -> TRUE
            [] OTHER -> m.decl # <<>> \/ \E p \in Range(m.p) : IF p.t = "txt" THEN ~AllXml(p.s) ELSE p.t = "mku" \/ p.fn # cEntity \/ p.arg.t # "var" \/ ~IsName(p.arg.s)
IsNum(s) == Len(s) > 0 /\ All(s, LAMBDA c : c \in Digit)
NumVal(s) == FoldLeft(LAMBDA n, c : 10 * n + c - 48, 0, s)
\* the items of an array follow one another
ArrayOk(es) ==
  FoldLeft(LAMBDA st, e :
             IF e.t = "com" \/ Len(e.id) = 1 THEN [st EXCEPT !.name = <<>>]
             ELSE IF ~IsNum(e.id[2]) THEN [st EXCEPT !.ok = FALSE]
             ELSE LET n == NumVal(e.id[2]) IN
                  IF n = 0 THEN [st EXCEPT !.name = <<e.id[1]>>, !.n = 1, !.meta = Range(e.meta)]
                  ELSE IF st.name = <<e.id[1]>> /\ st.n = n /\ st.meta = Range(e.meta) THEN [st EXCEPT !.n = @ + 1]
                  ELSE [st EXCEPT !.ok = FALSE],
           [ok |-> TRUE, name |-> <<>>, n |-> 0, meta |-> {}], es).ok
BadEntry(e) ==
  IF e.t = "com" THEN BadCom(e.com)
  ELSE Len(e.id) \notin {1, 2} \/ ~IsName(e.id[1]) \/ BadMeta(e.meta) \/ BadCom(e.com) \/ BadMsg(SetMsg(e.val), Len(e.id) = 1)
cXmlns == <<120, 109, 108, 110, 115>>
\* what a file cannot hold
Refused(r) ==
  \/ BadCom(r.com) \/ BadMeta([i \in 1..Len(r.meta) |-> IF r.meta[i].k = cName THEN [r.meta[i] EXCEPT !.k = <<1>>] ELSE r.meta[i]]) \/ \E m \in Range(r.meta) : m.k = cXmlns
  \/ \E s \in Range(r.secs) : s.meta # <<>> \/ BadCom(s.com) \/ s.id \notin {<<>>, <<cENTITY>>} \/ \E e \in Range(s.ents) : IF s.id = <<>> THEN BadEntry(e) ELSE BadEntity(e)
  \/ LET es == Concat([i \in 1..Len(r.secs) |-> IF r.secs[i].id = <<>> THEN <<>> ELSE r.secs[i].ents]) IN \E i, j \in 1..Len(es) : i # j /\ es[i].t = "ent" /\ es[j].t = "ent" /\ es[i].id = es[j].id
  \/ ~ArrayOk(Rest_(r))
\* ---------------------------------------------------------------- writing
\* one way to write a pattern of text and placeholders that are as in the source
Spaces(s) ==
  Concat([i \in 1..Len(s) |->
    IF s[i] = 32 /\ (i = 1 \/ i = Len(s) \/ s[i - 1] = 32 \/ (TagEnd(s, i + 1) > 0 /\ Block(SubSeq(s, i + 1, TagEnd(s, i + 1)))) \/ (\E n \in {4, 5} : i > n /\ Break(SubSeq(s, i - n, i - 1))))
    THEN UChar(32) ELSE <<s[i]>>])
Sigil(s) == IF At(s, 1) \in {63, 64} THEN UChar(s[1]) \o Tail(s) ELSE s
Encode(ps) == Sigil(Spaces(Concat([i \in 1..Len(ps) |-> IF ps[i].t = "txt" THEN Escape(ps[i].s) ELSE IF Src(ps[i]) # <<>> THEN Src(ps[i])[1] ELSE Escape(ps[i].arg.s)])))
If(c, n) == IF c THEN {} ELSE {n}
\* ---------------------------------------------------------------- verdicts
SetRes(r) == [com |-> r.com, meta |-> HeadMeta(r.meta), secs |-> [i \in 1..Len(r.secs) |-> [r.secs[i] EXCEPT !.ents = [j \in 1..Len(@) |-> IF @[j].t = "com" THEN @[j] ELSE [@[j] EXCEPT !.val = SetMsg(@)]]]]]
DecRes(d, o) == LET r == Decode(d, o).res IN [r EXCEPT !.meta = HeadMeta(@)]
\* text that is found to be a placeholder or a tag when read again
\* or a conversion which what follows it may complete
Open_(s) == At(s, 1) = Pct /\ Len(s) > 1 /\ s[Len(s)] \in Flag \cup DigitDot \cup {36, 84, 116}
Tricky(ps) == \E p \in Range(ps) : IF p.t = "txt" THEN \E c \in Range(p.s) : c \in {Pct, Lt} ELSE p.t = "exp" /\ (IF Src(p) # <<>> THEN Open_(Src(p)[1]) ELSE p.arg.t = "lit" /\ \E c \in Range(p.arg.s) : c = Pct)
TrickyMsg(m) == CASE m.t = "pat" -> Tricky(m.p) [] m.t = "sel" -> \E v \in Range(m.var) : Tricky(v.p) [] OTHER -> TRUE
TrickyRes(r) == \E s \in Range(r.secs) : \E e \in Range(s.ents) : e.t = "ent" /\ TrickyMsg(e.val)
\* an index relative to what precedes it
RelPat(p) == \E i \in 2..Len(p) : p[i].k = "ch" /\ p[i - 1].k = "ch" /\ p[i - 1].c = Pct /\ p[i].c = Lt
RelMsg(f) == IF f.t = "pat" THEN RelPat(f.p) ELSE \E i \in 1..Len(f.v) : RelPat(f.v[i].p)
RelRes(f) == LET es == f.ents \o f.rest IN \E i \in 1..Len(es) : es[i].t = "ent" /\ RelMsg(es[i].val)
\* a protected span of several parts, none protected or markup, is read as one span for each
Split_(ps) == \E i, j \in 1..Len(ps) : j > i + 2 /\ ps[i].t = "mku" /\ ps[j].t = "mku" /\ ps[i].kind = "open" /\ ps[j].kind = "close" /\ Protected(ps[i]) /\ \A k \in (i + 1)..(j - 1) : ps[k].t # "mku" /\ ~Protected(ps[k])
SplitMsg(m) == CASE m.t = "pat" -> Split_(m.p) [] m.t = "sel" -> \E i \in 1..Len(m.var) : Split_(m.var[i].p) [] OTHER -> FALSE
SplitRes(r) == \E i \in 1..Len(r.secs) : \E k \in 1..Len(r.secs[i].ents) : r.secs[i].ents[k].t = "ent" /\ SplitMsg(r.secs[i].ents[k].val)
Default == [ascii |-> FALSE, lit |-> FALSE]
Written(r, out, o, exact) ==
  IF Refused(r) THEN If(out.k = "err" /\ out.ve, "not_refused")
  ELSE IF out.k # "ok" THEN {"refused"}
  ELSE IF Decode(out.d, o).err THEN If(TrickyRes(SetRes(r)), "unreadable")
  ELSE If(FlatRes(DecRes(out.d, o)) = FlatRes(SetRes(r)) \/ RelRes(FlatRes(SetRes(r))) \/ SplitRes(SetRes(r)), "written")
       \cup (IF exact /\ ~TrickyRes(SetRes(r)) THEN If(DecRes(out.d, o) = SetRes(r), "round_trip") ELSE {})
MsgWritten(m, out, o, exact) ==
  LET s == SetMsg(m) IN
  IF BadMsg(s, FALSE) THEN If(out.k = "err" /\ out.ve, "not_refused")
  ELSE IF out.k # "ok" THEN {"refused"}
  ELSE LET p == Pattern(out.kids, o) IN
       IF p.err THEN If(TrickyMsg(s), "unreadable") ELSE
       If(FlatMsg(Pat(p.p)) = FlatMsg(s) \/ RelMsg(FlatMsg(s)) \/ SplitMsg(s), "written") \cup (IF exact /\ ~TrickyMsg(s) THEN If(p.p = s.p, "round_trip") ELSE {})
AndroidVerdict(e) ==
  CASE e.op = "idle" -> {}
    [] e.op = "parse" -> LET x == Decode(e.d, e.o) IN
                         IF x.err THEN If(e.out.k = "err" /\ e.out.ve, "accepted")
                         ELSE IF e.out.k # "ok" THEN {"rejected"}
                         ELSE If(SetRes(e.out.res) = DecRes(e.d, e.o), "parsed") \cup Written(e.out.res, e.again, e.o, TRUE)
    [] e.op = "ser" -> Written(e.res, e.out, Default, FALSE)
    [] e.op = "pmsg" -> LET x == Pattern(e.kids, e.o) IN
                        IF x.err THEN If(e.out.k = "err" /\ e.out.ve, "accepted")
                        ELSE IF e.out.k # "ok" THEN {"rejected"}
                        ELSE If(SetMsg(e.out.m) = Pat(x.p), "parsed") \cup MsgWritten(e.out.m, e.again, e.o, TRUE)
    [] e.op = "smsg" -> MsgWritten(e.m, e.out, Default, FALSE)
=============================================================================
