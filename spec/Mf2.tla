-------------------------------- MODULE Mf2 ---------------------------------
(* MessageFormat 2 (LDML 46): the grammar of messages as a parser over code  *)
(* points, its data model errors, the validity of a message as data, and one *)
(* serialization.  Texts are sequences of code points throughout; messages   *)
(* are the records of Model.tla with options and attributes as sets.         *)
EXTENDS Text, FiniteSetsExt
Ws == {9, 10, 13, 32, 12288}
Bidi == {1564, 8206, 8207, 8294, 8295, 8296, 8297}
Bs == 92   LBr == 123   Bar == 124   RBr == 125   Star == 42   Dol == 36   Col == 58   Eq == 61   AtS == 64   Hash == 35   Sl == 47   Dot == 46   Min1 == 45
Escable == {Bs, LBr, Bar, RBr}
In(c, a, b) == c >= a /\ c <= b
IsNameStart(c) ==
  c \in Alpha \/ c = 95 \/ In(c, 192, 214) \/ In(c, 216, 246) \/ In(c, 248, 767) \/ In(c, 880, 893) \/ In(c, 895, 1563) \/ In(c, 1565, 8191)
  \/ In(c, 8204, 8205) \/ In(c, 8304, 8591) \/ In(c, 11264, 12271) \/ In(c, 12289, 55295) \/ In(c, 63744, 64975) \/ In(c, 65008, 65532) \/ In(c, 65536, 983039)
IsNameChar(c) == IsNameStart(c) \/ c \in Digit \/ c = Min1 \/ c = Dot \/ c = 183 \/ In(c, 768, 879) \/ In(c, 8255, 8256)
IsName(s) == Len(s) > 0 /\ IsNameStart(s[1]) /\ All(s, IsNameChar)
IsIdent(s) ==
  LET k == IndexFrom(s, Col, 1) IN IF k = 0 THEN IsName(s) ELSE IsName(SubSeq(s, 1, k - 1)) /\ IsName(From(s, k + 1))

\* ---------------------------------------------------------------- syntax
FAIL == [ok |-> FALSE, i |-> 0, v |-> <<>>]
R(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
\* the first position at or after i of a character for which P fails
Skip(s, i, P(_)) == LET k == SelectInSeq(From(s, i), LAMBDA c : ~P(c)) IN IF k = 0 THEN Len(s) + 1 ELSE i + k - 1
SkipBidi(s, i) == Skip(s, i, LAMBDA c : c \in Bidi)
O(s, i) == Skip(s, i, LAMBDA c : c \in Bidi \cup Ws)
Sp(s, i) == IF At(s, SkipBidi(s, i)) \in Ws THEN R(O(s, i), <<>>) ELSE FAIL
Looks(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
Name(s, i) ==
  LET j == SkipBidi(s, i)
      k == Skip(s, j, IsNameChar)
  IN IF IsNameStart(At(s, j)) THEN R(SkipBidi(s, k), SubSeq(s, j, k - 1)) ELSE FAIL
Ident(s, i) ==
  LET n == Name(s, i) IN
  IF ~n.ok THEN FAIL ELSE IF At(s, n.i) # Col THEN n
  ELSE LET m == Name(s, n.i + 1) IN IF m.ok THEN R(m.i, n.v \o <<Col>> \o m.v) ELSE FAIL
Digits(s, i) == Skip(s, i, LAMBDA c : c \in Digit)
\* the longest number at i: [-](0|[1-9]digits)[.digits][(e|E)[+|-]digits]
Number(s, i) ==
  LET a == IF At(s, i) = Min1 THEN i + 1 ELSE i
      b == IF At(s, a) = 48 THEN a + 1 ELSE Digits(s, a)
      c == IF At(s, b) = Dot /\ At(s, b + 1) \in Digit THEN Digits(s, b + 1) ELSE b
      x == IF At(s, c + 1) \in {43, Min1} THEN c + 2 ELSE c + 1
      d == IF At(s, c) \in {69, 101} /\ At(s, x) \in Digit THEN Digits(s, x) ELSE c
  IN IF b = a THEN FAIL ELSE R(d, SubSeq(s, i, d - 1))
IsNumber(s) == LET n == Number(s, 1) IN n.ok /\ n.i = Len(s) + 1
RECURSIVE QScan(_, _, _)
QScan(s, i, acc) ==
  LET c == At(s, i) IN
  CASE c \in {-1, 0} -> FAIL
    [] c = Bar -> R(i + 1, acc)
    [] c = Bs -> IF At(s, i + 1) \in Escable THEN QScan(s, i + 2, Append(acc, s[i + 1])) ELSE FAIL
    [] OTHER -> QScan(s, i + 1, Append(acc, c))
Literal(s, i) == IF At(s, i) = Bar THEN QScan(s, i + 1, <<>>) ELSE LET n == Number(s, i) IN IF n.ok THEN n ELSE Name(s, i)
Var(s, i) == IF At(s, i) = Dol THEN Name(s, i + 1) ELSE FAIL
Lit(v) == [t |-> "lit", s |-> v]
VarRef(v) == [t |-> "var", s |-> v]
NoArg == [t |-> "none", s |-> <<>>]
Value(s, i) ==
  IF At(s, i) = Dol THEN LET v == Var(s, i) IN IF v.ok THEN R(v.i, VarRef(v.v)) ELSE FAIL
  ELSE LET v == Literal(s, i) IN IF v.ok THEN R(v.i, Lit(v.v)) ELSE FAIL
RECURSIVE Options(_, _, _)
Options(s, i, acc) ==
  LET sp == Sp(s, i)
      id == Ident(s, sp.i)
      e == O(s, id.i)
      v == Value(s, O(s, e + 1))
  IN IF ~sp.ok \/ ~id.ok THEN R(i, acc)
     ELSE IF At(s, e) # Eq \/ ~v.ok \/ (\E o \in acc : o.n = id.v) THEN FAIL
     ELSE Options(s, v.i, acc \cup {[n |-> id.v, v |-> v.v]})
RECURSIVE Attrs(_, _, _)
Attrs(s, i, acc) ==
  LET sp == Sp(s, i)
      id == Ident(s, sp.i + 1)
      e == O(s, id.i)
      v == Literal(s, O(s, e + 1))
  IN IF ~sp.ok \/ At(s, sp.i) # AtS THEN R(i, acc)
     ELSE IF ~id.ok \/ (\E a \in acc : a.n = id.v) THEN FAIL
     ELSE IF At(s, e) # Eq THEN Attrs(s, id.i, acc \cup {[n |-> id.v, v |-> [t |-> "true", s |-> <<>>]]})
     ELSE IF ~v.ok THEN FAIL ELSE Attrs(s, v.i, acc \cup {[n |-> id.v, v |-> Lit(v.v)]})
\* the options and attributes after position i
Tail2(s, i) ==
  LET o == Options(s, i, {})
      a == Attrs(s, o.i, {})
  IN IF ~o.ok \/ ~a.ok THEN FAIL ELSE R(O(s, a.i), [opt |-> o.v, attr |-> a.v])
Exp(arg, fn, t) == [t |-> "exp", arg |-> arg, fn |-> fn, opt |-> t.opt, attr |-> t.attr]
FnTail(s, i, arg) ==   \* i is after the colon
  LET id == Ident(s, i)
      t == Tail2(s, id.i)
  IN IF id.ok /\ t.ok /\ At(s, t.i) = RBr THEN R(t.i + 1, Exp(arg, id.v, t.v)) ELSE FAIL
ArgTail(s, i, arg) ==
  LET sp == Sp(s, i)
      a == Attrs(s, i, {})
      e == O(s, a.i)
  IN IF sp.ok /\ At(s, sp.i) = Col THEN FnTail(s, sp.i + 1, arg)
     ELSE IF a.ok /\ At(s, e) = RBr THEN R(e + 1, Exp(arg, <<>>, [opt |-> {}, attr |-> a.v])) ELSE FAIL
MarkupBody(s, i) ==    \* i is at the sigil
  LET id == Ident(s, i + 1)
      t == Tail2(s, id.i)
      alone == At(s, t.i) = Sl
      e == IF alone THEN t.i + 1 ELSE t.i
  IN IF ~id.ok \/ ~t.ok \/ At(s, e) # RBr \/ (alone /\ s[i] = Sl) THEN FAIL
     ELSE R(e + 1, [t |-> "mku", kind |-> IF alone THEN "standalone" ELSE IF s[i] = Hash THEN "open" ELSE "close", name |-> id.v, opt |-> t.v.opt, attr |-> t.v.attr])
Placeholder(s, i) ==   \* i is after the brace
  LET j == O(s, i)
      c == At(s, j)
      a == Value(s, j)
  IN CASE c \in {Hash, Sl} -> MarkupBody(s, j)
       [] c = Col -> FnTail(s, j + 1, NoArg)
       [] OTHER -> IF a.ok THEN ArgTail(s, a.i, a.v) ELSE FAIL
Expression(s, i) == LET p == Placeholder(s, i) IN IF p.ok /\ p.v.t = "exp" THEN p ELSE FAIL
Flush(acc, txt) == IF txt = <<>> THEN acc ELSE Append(acc, [t |-> "txt", s |-> txt])
RECURSIVE PScan(_, _, _, _)
PScan(s, i, acc, txt) ==
  LET c == At(s, i)
      p == Placeholder(s, i + 1)
      j == Skip(s, i, LAMBDA x : x \notin {0, Bs, LBr, RBr})
  IN CASE c \in {-1, RBr} -> R(i, Flush(acc, txt))
       [] c = 0 -> FAIL
       [] c = Bs -> IF At(s, i + 1) \in Escable THEN PScan(s, i + 2, acc, Append(txt, s[i + 1])) ELSE FAIL
       [] c = LBr -> IF p.ok THEN PScan(s, p.i, Append(Flush(acc, txt), p.v), <<>>) ELSE FAIL
       [] OTHER -> PScan(s, j, acc, txt \o SubSeq(s, i, j - 1))
Quoted(s, i) ==
  LET p == PScan(s, i + 2, <<>>, <<>>) IN
  IF Looks(s, i, <<LBr, LBr>>) /\ p.ok /\ Looks(s, p.i, <<RBr, RBr>>) THEN R(O(s, p.i + 2), p.v) ELSE FAIL
\* keys, separated by whitespace, and a quoted pattern
RECURSIVE Variant(_, _, _)
Variant(s, i, ks) ==
  LET l == Literal(s, i)
      k == IF At(s, i) = Star THEN R(i + 1, [t |-> "any", s |-> <<>>]) ELSE IF l.ok THEN R(l.i, [t |-> "key", s |-> l.v]) ELSE FAIL
      sp == Sp(s, k.i)
      q == Quoted(s, O(s, k.i))
  IN IF ~k.ok THEN FAIL
     ELSE IF sp.ok /\ At(s, sp.i) # LBr THEN Variant(s, sp.i, Append(ks, k.v))
     ELSE IF q.ok THEN R(q.i, [k |-> Append(ks, k.v), p |-> q.v]) ELSE FAIL
RECURSIVE Variants(_, _, _)
Variants(s, i, acc) ==
  LET v == Variant(s, i, <<>>) IN
  IF i > Len(s) THEN R(i, acc) ELSE IF v.ok THEN Variants(s, v.i, Append(acc, v.v)) ELSE FAIL
RECURSIVE Sels(_, _, _)
Sels(s, i, acc) ==
  LET sp == Sp(s, i)
      v == Var(s, sp.i)
  IN IF ~sp.ok THEN FAIL ELSE IF At(s, sp.i) # Dol THEN (IF acc = <<>> THEN FAIL ELSE R(sp.i, acc))
     ELSE IF v.ok THEN Sels(s, v.i, Append(acc, v.v)) ELSE FAIL

\* ------------------------------------------------------ data model errors
OptVars(e) == {o.v.s : o \in {x \in e.opt : x.v.t = "var"}}
ArgVars(e) == IF e.arg.t = "var" THEN {e.arg.s} ELSE {}
IsInput(d) == ArgVars(d.e) = {d.n}
\* the variables that a declaration depends on
Deps(d) == OptVars(d.e) \cup (IF IsInput(d) THEN {} ELSE ArgVars(d.e))
DeclNames(ds) == {ds[i].n : i \in 1..Len(ds)}
DeclOf(ds, n) == ds[CHOOSE i \in 1..Len(ds) : ds[i].n = n]
\* each declaration follows what it depends on: it is not used before
Ordered(ds) == \A i, j \in 1..Len(ds) : i <= j => ds[j].n \notin Deps(ds[i])
RECURSIVE Annotated(_, _, _)
Annotated(ds, n, fuel) ==
  n \in DeclNames(ds) /\ fuel > 0 /\
  LET e == DeclOf(ds, n).e IN
    \/ e.fn # <<>>
    \/ e.arg.t = "var" /\ e.arg.s # n /\ Annotated(ds, e.arg.s, fuel - 1)
AnyKey == [t |-> "any", s |-> <<>>]
SelOk(ds, sel, vars) ==
  /\ sel # <<>>
  /\ \A i \in 1..Len(sel) : Annotated(ds, sel[i], Len(ds) + 1)
  /\ \A i \in 1..Len(vars) : Len(vars[i].k) = Len(sel)
  /\ \A i, j \in 1..Len(vars) : i < j => vars[i].k # vars[j].k
  /\ \E i \in 1..Len(vars) : vars[i].k = [x \in 1..Len(sel) |-> AnyKey]

Input == <<46, 105, 110, 112, 117, 116>>
Local == <<46, 108, 111, 99, 97, 108>>
Match == <<46, 109, 97, 116, 99, 104>>
RECURSIVE Complex(_, _, _)
Complex(s, i, ds) ==
  LET used == UNION {Deps(ds[k]) \cup {ds[k].n} : k \in 1..Len(ds)}
      More(d, j) == IF d.n \in used \cup Deps(d) THEN FAIL ELSE Complex(s, O(s, j), Append(ds, d))
  IN
  IF Looks(s, i, Input) THEN
    LET b == O(s, i + 6)
        e == Expression(s, b + 1)
    IN IF At(s, b) # LBr \/ ~e.ok THEN FAIL ELSE IF e.v.arg.t # "var" THEN FAIL ELSE More([n |-> e.v.arg.s, e |-> e.v], e.i)
  ELSE IF Looks(s, i, Local) THEN
    LET sp == Sp(s, i + 6)
        v == Var(s, sp.i)
        q == O(s, v.i)
        b == O(s, q + 1)
        e == Expression(s, b + 1)
    IN IF ~sp.ok \/ ~v.ok \/ At(s, q) # Eq \/ At(s, b) # LBr \/ ~e.ok THEN FAIL
       ELSE IF v.v \in ArgVars(e.v) THEN FAIL ELSE More([n |-> v.v, e |-> e.v], e.i)
  ELSE IF Looks(s, i, Match) THEN
    LET sel == Sels(s, i + 6, <<>>)
        vs == Variants(s, sel.i, <<>>)
    IN IF ~sel.ok \/ ~vs.ok THEN FAIL ELSE IF ~SelOk(ds, sel.v, vs.v) THEN FAIL
       ELSE R(vs.i, [t |-> "sel", decl |-> ds, sel |-> sel.v, var |-> vs.v])
  ELSE LET q == Quoted(s, i) IN IF q.ok THEN R(q.i, [t |-> "pat", decl |-> ds, p |-> q.v]) ELSE FAIL
ParseMf2(s) ==
  LET j == O(s, 1)
      r == CASE At(s, j) = Dot -> Complex(s, j, <<>>)
             [] Looks(s, j, <<LBr, LBr>>) -> LET q == Quoted(s, j) IN IF q.ok THEN R(q.i, [t |-> "pat", decl |-> <<>>, p |-> q.v]) ELSE FAIL
             [] OTHER -> LET p == PScan(s, 1, <<>>, <<>>) IN IF p.ok THEN R(p.i, [t |-> "pat", decl |-> <<>>, p |-> p.v]) ELSE FAIL
  IN IF r.ok /\ r.i = Len(s) + 1 THEN r ELSE FAIL

\* ------------------------------------------------------ messages as data
\* no NUL in any text or literal: it cannot be written
Chars(s) == 0 \notin Range(s)
OptOk(o) == IsIdent(o.n) /\ ((o.v.t = "var" /\ IsName(o.v.s)) \/ (o.v.t = "lit" /\ Chars(o.v.s)))
AttrOk(a) == IsIdent(a.n) /\ (a.v.t = "true" \/ (a.v.t = "lit" /\ Chars(a.v.s)))
ExpOk(e) ==
  /\ e.t = "exp"
  /\ \/ e.arg.t = "var" /\ IsName(e.arg.s)
     \/ e.arg.t = "lit" /\ Chars(e.arg.s)
     \/ e.arg.t = "none" /\ e.fn # <<>>
  /\ IF e.fn = <<>> THEN e.opt = {} ELSE IsIdent(e.fn)
  /\ \A o \in e.opt : OptOk(o)
  /\ \A a \in e.attr : AttrOk(a)
PartOk(p) ==
  CASE p.t = "txt" -> Chars(p.s)
    [] p.t = "exp" -> ExpOk(p)
    [] p.t = "mku" -> p.kind \in {"open", "standalone", "close"} /\ IsIdent(p.name) /\ (\A o \in p.opt : OptOk(o)) /\ (\A a \in p.attr : AttrOk(a))
    [] OTHER -> FALSE
PatOk(p) == \A i \in 1..Len(p) : PartOk(p[i])
\* some order of the declarations has each follow those it depends on
RECURSIVE Reach(_, _)
Reach(ds, ns) == LET m == ns \cup UNION {Deps(DeclOf(ds, n)) : n \in ns \cap DeclNames(ds)} IN IF m = ns THEN ns ELSE Reach(ds, m)
Acyclic(ds) == \A i \in 1..Len(ds) : ds[i].n \notin Reach(ds, Deps(ds[i]))
DeclOk(ds) == (\A i \in 1..Len(ds) : IsName(ds[i].n) /\ ExpOk(ds[i].e)) /\ Acyclic(ds)
ValidMf2(m) ==
  CASE m.t = "pat" -> DeclOk(m.decl) /\ PatOk(m.p)
    [] m.t = "sel" -> /\ DeclOk(m.decl)
                      /\ \A i \in 1..Len(m.sel) : IsName(m.sel[i])
                      /\ SelOk(m.decl, m.sel, m.var)
                      /\ \A i \in 1..Len(m.var) : PatOk(m.var[i].p) /\ \A j \in 1..Len(m.var[i].k) : m.var[i].k[j].t = "any" \/ (m.var[i].k[j].t = "key" /\ Chars(m.var[i].k[j].s))
    [] OTHER -> FALSE
\* adjacent text joined, empty text dropped
NormPat(p) ==
  LET r == FoldLeft(LAMBDA st, x : IF x.t = "txt" THEN [st EXCEPT !.txt = @ \o x.s] ELSE [acc |-> Append(Flush(st.acc, st.txt), x), txt |-> <<>>], [acc |-> <<>>, txt |-> <<>>], p)
  IN Flush(r.acc, r.txt)
NormMf2(m) ==
  IF m.t = "pat" THEN [m EXCEPT !.p = NormPat(@)]
  ELSE [m EXCEPT !.var = [i \in 1..Len(@) |-> [k |-> @[i].k, p |-> NormPat(@[i].p)]]]

\* ------------------------------------------------------ one way to write it
Esc(s, E) == Concat([i \in 1..Len(s) |-> IF s[i] \in E THEN <<Bs, s[i]>> ELSE <<s[i]>>])
WLit(s) == IF IsName(s) \/ IsNumber(s) THEN s ELSE <<Bar>> \o Esc(s, {Bs, Bar}) \o <<Bar>>
WVal(v) == IF v.t = "var" THEN <<Dol>> \o v.s ELSE WLit(v.s)
SetSeq(S) == SetToSeq(S)
WOpts(S) == LET q == SetSeq(S) IN Concat([i \in 1..Len(q) |-> <<32>> \o q[i].n \o <<Eq>> \o WVal(q[i].v)])
WAttrs(S) == LET q == SetSeq(S) IN Concat([i \in 1..Len(q) |-> <<32, AtS>> \o q[i].n \o (IF q[i].v.t = "true" THEN <<>> ELSE <<Eq>> \o WLit(q[i].v.s))])
WExp(e) == <<LBr>> \o (IF e.arg.t = "none" THEN <<>> ELSE WVal(e.arg)) \o (IF e.fn = <<>> THEN <<>> ELSE (IF e.arg.t = "none" THEN <<>> ELSE <<32>>) \o <<Col>> \o e.fn) \o WOpts(e.opt) \o WAttrs(e.attr) \o <<RBr>>
WPart(p) ==
  CASE p.t = "txt" -> Esc(p.s, {Bs, LBr, RBr})
    [] p.t = "exp" -> WExp(p)
    [] OTHER -> <<LBr, IF p.kind = "close" THEN Sl ELSE Hash>> \o p.name \o WOpts(p.opt) \o WAttrs(p.attr) \o (IF p.kind = "standalone" THEN <<Sl>> ELSE <<>>) \o <<RBr>>
WPat(p) == Concat([i \in 1..Len(p) |-> WPart(p[i])])
WQuoted(p) == <<LBr, LBr>> \o WPat(p) \o <<RBr, RBr>>
WDecl(d) == (IF IsInput(d) THEN Input \o <<32>> ELSE Local \o <<32, Dol>> \o d.n \o <<32, Eq, 32>>) \o WExp(d.e) \o <<10>>
WVariant(v) == <<10>> \o Concat([i \in 1..Len(v.k) |-> (IF v.k[i].t = "any" THEN <<Star>> ELSE WLit(v.k[i].s)) \o <<32>>]) \o WQuoted(v.p)
Write(m) ==
  LET ds == Concat([i \in 1..Len(m.decl) |-> WDecl(m.decl[i])])
      t == WPat(m.p)
  IN IF m.t = "sel" THEN ds \o Match \o Concat([i \in 1..Len(m.sel) |-> <<32, Dol>> \o m.sel[i]]) \o Concat([i \in 1..Len(m.var) |-> WVariant(m.var[i])])
     ELSE IF m.decl = <<>> /\ ~Looks(t, O(t, 1), <<Dot>>) THEN t
     ELSE ds \o WQuoted(m.p)

\* --------------------------------------------------- judging what is recorded
\* recorded messages have options and attributes as sequences
FixE(e) == IF e.t \in {"exp", "mku"} THEN [e EXCEPT !.opt = Range(@), !.attr = Range(@)] ELSE e
FixP(p) == [i \in 1..Len(p) |-> FixE(p[i])]
FixK(k) == IF k.t = "any" THEN AnyKey ELSE k
FixD(ds) == [i \in 1..Len(ds) |-> [n |-> ds[i].n, e |-> FixE(ds[i].e)]]
Fix(m) ==
  CASE m.t = "pat" -> [m EXCEPT !.decl = FixD(@), !.p = FixP(@)]
    [] m.t = "sel" -> [m EXCEPT !.decl = FixD(@), !.var = [i \in 1..Len(@) |-> [k |-> [j \in 1..Len(@[i].k) |-> FixK(@[i].k[j])], p |-> FixP(@[i].p)]]]
    [] OTHER -> m
If(c, n) == IF c THEN {} ELSE {n}
\* a text was parsed
ParseVerdict(e) ==
  LET r == ParseMf2(e.src)
      One(o) == IF o.k = "ok" THEN (IF ~r.ok THEN {"accepts_malformed"} ELSE If(Fix(o.msg) = r.v, "message_denoted"))
                ELSE (IF r.ok THEN {"rejects_wellformed"} ELSE {}) \cup If(o.type = "MF2ParseError", "parse_error_type")
  IN UNION {One(e.outs[i]) : i \in 1..Len(e.outs)}
SameButDecl(a, b) ==
  /\ a.t = b.t
  /\ IF a.t \in {"pat", "sel"} THEN Len(a.decl) = Len(b.decl) /\ Range(a.decl) = Range(b.decl) /\ [a EXCEPT !.decl = <<>>] = [b EXCEPT !.decl = <<>>] ELSE a = b
\* a message was validated, and if valid, written
ValidVerdict(e) ==
  LET m == Fix(e.msg)
      a == Fix(e.after)
      v == ValidMf2(m)
      r == ParseMf2(e.text)
  IN IF e.raised THEN If(~v, "validates") \cup If(e.type = "MF2ValidationError", "validation_error_type") \cup If(SameButDecl(m, a), "validation_changes_message")
     ELSE IF ~v THEN {"accepts_invalid"}
     ELSE If(SameButDecl(m, a), "only_reorders") \cup If(Ordered(a.decl), "dependencies_first")
          \cup (IF e.serr # "" THEN {"serializes"}
                ELSE (IF ~r.ok THEN {"written_wellformed"} ELSE If(r.v = NormMf2(a), "written_denotes"))
                     \cup If(Fix(e.final) = a, "serializing_changes_message"))
Mf2Verdict(e) == IF e.op = "idle" THEN {} ELSE IF e.op = "parse" THEN ParseVerdict(e) ELSE ValidVerdict(e)
=============================================================================
