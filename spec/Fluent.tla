------------------------------- MODULE Fluent -------------------------------
(* Fluent: how a syntax tree and a resource tell each other's story.         *)
(*                                                                           *)
(* The syntax tree of a text is that of the reference parser, fluent.syntax. *)
(* Text is code points.  A pattern is a sequence of                          *)
(*   [t |-> "txt", s]                                                        *)
(*   [t |-> "num", v] [t |-> "str", v] [t |-> "var", n]                      *)
(*   [t |-> "msg", n, a]  [t |-> "term", n, a, pos, named]                   *)
(*   [t |-> "fn", n, pos, named]     a is <<>> or the attribute's name       *)
(*   [t |-> "sel", sel, var]         var: sequence of [key, num, def, p]     *)
(* A select takes the first of its variants with the key selected, or else   *)
(* its default one.  What a message says is what it formats as for every     *)
(* choice of the keys: a message is right when each such choice finds the    *)
(* same text and the same placeholders in it as in the syntax tree.          *)
EXTENDS Text, FiniteSetsExt, Functions

cNumber == <<110, 117, 109, 98, 101, 114>>
cString == <<115, 116, 114, 105, 110, 103>>
cMessage == <<109, 101, 115, 115, 97, 103, 101>>
cDatetime == <<100, 97, 116, 101, 116, 105, 109, 101>>
cFluentFn == <<102, 108, 117, 101, 110, 116, 45, 102, 110>>
cNUMBER == <<78, 85, 77, 66, 69, 82>>
cDATETIME == <<68, 65, 84, 69, 84, 73, 77, 69>>
cInfo == <<105, 110, 102, 111>>
Plurals == {<<122, 101, 114, 111>>, <<111, 110, 101>>, <<116, 119, 111>>, <<102, 101, 119>>, <<109, 97, 110, 121>>, <<111, 116, 104, 101, 114>>}

IsId(s) == s # <<>> /\ s[1] \in Alpha /\ All(s, LAMBDA c : c \in Alpha \cup Digit \cup {95, 45})
IsFn(s) == s # <<>> /\ s[1] \in Upper /\ All(s, LAMBDA c : c \in Upper \cup Digit \cup {95, 45})
Digits(s) == s # <<>> /\ All(s, LAMBDA c : c \in Digit)
IsNum(s) ==
  LET u == IF At(s, 1) = 45 THEN Tail(s) ELSE s
      k == IndexFrom(u, 46, 1)
  IN IF k = 0 THEN Digits(u) ELSE Digits(SubSeq(u, 1, k - 1)) /\ Digits(From(u, k + 1))
ToLower(s) == [i \in 1..Len(s) |-> IF s[i] \in Upper THEN s[i] + 32 ELSE s[i]]

Seq1(x) == IF x = <<>> THEN {} ELSE {x}
\* join adjacent text, drop empty text
Merge(P) ==
  FoldLeft(LAMBDA a, x :
             IF x.t # "txt" THEN Append(a, x)
             ELSE IF x.s = <<>> THEN a
             ELSE IF a # <<>> /\ a[Len(a)].t = "txt" THEN [a EXCEPT ![Len(a)].s = @ \o x.s]
             ELSE Append(a, x), <<>>, P)

---------------------------------------------------------------------------
(* Selection *)
RECURSIVE Sites(_)
Sites(P) == Concat([i \in 1..Len(P) |-> IF P[i].t = "sel" THEN <<P[i]>> \o Concat([j \in 1..Len(P[i].var) |-> Sites(P[i].var[j].p)]) ELSE <<>>])

Exp(a, f, o, at) == [arg |-> a, fn |-> f, opt |-> o, attr |-> at]
Lit(s) == [t |-> "lit", s |-> s]
Var(s) == [t |-> "var", s |-> s]
NoArg == [t |-> "none", s |-> <<>>]
Opts(named) == {[n |-> x.n, v |-> Lit(x.v.v)] : x \in Range(named)}
RefName(e) == (IF e.t = "term" THEN <<45>> ELSE <<>>) \o e.n \o (IF e.a = <<>> THEN <<>> ELSE <<46>> \o e.a)

\* the expression of the data model for one of the syntax tree
InlineE(e) ==
  CASE e.t = "num" -> Exp(Lit(e.v), cNumber, {}, {})
    [] e.t = "str" -> Exp(Lit(e.v), <<>>, {}, {})
    [] e.t = "var" -> Exp(Var(e.n), <<>>, {}, {})
    [] e.t = "msg" -> Exp(Lit(RefName(e)), cMessage, {}, {})
    [] e.t = "term" -> Exp(Lit(RefName(e)), cMessage, Opts(e.named), {})
    [] e.t = "fn" -> Exp(IF e.pos = <<>> THEN NoArg ELSE IF e.pos[1].t = "var" THEN Var(e.pos[1].n) ELSE Lit(e.pos[1].v),
                         ToLower(e.n), Opts(e.named), {[n |-> cFluentFn, v |-> Lit(e.n)]})
\* and for the selector of the select x
SelE(x) ==
  CASE x.sel.t = "var" -> Exp(Var(x.sel.n), IF \A v \in Range(x.var) : v.num \/ v.key \in Plurals THEN cNumber ELSE cString, {}, {})
    [] x.sel.t = "str" -> Exp(Lit(x.sel.v), cString, {}, {})
    [] OTHER -> InlineE(x.sel)
FnOk(e) == e.t = "fn" => Len(e.pos) <= 1 /\ (e.pos # <<>> => e.pos[1].t \in {"num", "str", "var"})
\* expressions of the tree, arguments as the map they are
RECURSIVE NAst(_)
NAst(e) ==
  CASE e.t = "fn" -> [t |-> "fn", n |-> e.n, pos |-> [i \in 1..Len(e.pos) |-> NAst(e.pos[i])], named |-> Range(e.named)]
    [] e.t = "term" -> [t |-> "term", n |-> e.n, a |-> e.a, pos |-> [i \in 1..Len(e.pos) |-> NAst(e.pos[i])], named |-> Range(e.named)]
    [] OTHER -> e

\* the j'th variant of x may be selected
Reached(x, j) == x.var[j].def \/ SelectInSeq(x.var, LAMBDA v : v.key = x.var[j].key) = j
\* selects nested in others with the same selector are given the benefit of the doubt
RECURSIVE PatOkIn(_, _)
PatOkIn(P, up) ==
  \A x \in Range(P) :
    IF x.t # "sel" THEN FnOk(x)
    ELSE /\ FnOk(x.sel)
         /\ NAst(x.sel) \in up \/ \A j \in 1..Len(x.var) : Reached(x, j) => PatOkIn(x.var[j].p, up \cup {NAst(x.sel)})
PatOkReached(P) == PatOkIn(P, {})
RECURSIVE PatOk(_)
PatOk(P) == \A x \in Range(P) : IF x.t = "sel" THEN FnOk(x.sel) /\ \A v \in Range(x.var) : PatOk(v.p) ELSE FnOk(x)

Id(mode, x) == IF mode = "model" THEN SelE(x) ELSE NAst(x.sel)
Pick(x, tok) ==
  LET k == SelectInSeq(x.var, LAMBDA v : v.key = tok)
      d == SelectInSeq(x.var, LAMBDA v : v.def)
  IN x.var[IF k # 0 THEN k ELSE d].p
RECURSIVE Resolve(_, _, _)
Resolve(P, a, mode) == Concat([i \in 1..Len(P) |-> IF P[i].t = "sel" THEN Resolve(Pick(P[i], a[Id(mode, P[i])]), a, mode) ELSE <<P[i]>>])
\* every choice of keys; <<>> is a value that is no key
KeyChoices(S, K(_)) == FoldSet(LAMBDA s, fs : {(s :> k) @@ f : k \in K(s) \cup {<<>>}, f \in fs}, {<<>>}, S)

\* the variant of a message with selector values toks: the best match, first selector first
Fits(k, tok) == k.t = "any" \/ k.s = tok
BestVar(var, toks) ==
  LET fit == {i \in 1..Len(var) : \A j \in 1..Len(toks) : Fits(var[i].k[j], toks[j])}
      better(i, j) == \E c \in 1..Len(toks) : /\ var[i].k[c].t = "key" /\ var[j].k[c].t = "any"
                                              /\ \A b \in 1..(c - 1) : var[i].k[b].t = var[j].k[b].t
      best == {i \in fit : \A j \in fit : ~better(j, i)}
  IN IF best = {} THEN 0 ELSE CHOOSE i \in best : TRUE

---------------------------------------------------------------------------
(* Parsing: a message for a pattern *)
NExp(e) == Exp(e.arg, e.fn, Range(e.opt), Range(e.attr))
NPart(p) == IF p.t = "txt" THEN p ELSE IF p.t = "exp" THEN [t |-> "exp", e |-> NExp(p)] ELSE [t |-> "odd"]
NPat(P) == [i \in 1..Len(P) |-> NPart(P[i])]
MParts(P) == Merge([i \in 1..Len(P) |-> IF P[i].t = "txt" THEN P[i] ELSE [t |-> "exp", e |-> InlineE(P[i])]])
If(c, n) == IF c THEN {} ELSE {n}

DeclOf(decl, n) == LET k == SelectInSeq(decl, LAMBDA d : d.n = n) IN IF k = 0 THEN <<>> ELSE <<decl[k].e>>
ColKeys(M, j) == {M.var[i].k[j].s : i \in {x \in 1..Len(M.var) : M.var[x].k[j].t = "key"}}
MsgVsAst(P, M) ==
  LET sites == Sites(P)
      S == {SelE(x) : x \in Range(sites)}
  IN IF sites = <<>>
     THEN If(M.t = "pat" /\ M.decl = <<>> /\ NPat(M.p) = MParts(P), "pattern")
     ELSE IF M.t # "sel" THEN {"selects"}
     ELSE LET se == [j \in 1..Len(M.sel) |-> DeclOf(M.decl, M.sel[j])]
          IN IF (\E j \in 1..Len(M.sel) : se[j] = <<>>) \/ Len(M.decl) # Len(M.sel) \/ Cardinality({M.sel[j] : j \in 1..Len(M.sel)}) # Len(M.sel)
                \/ {NExp(se[j][1]) : j \in 1..Len(M.sel)} # S \/ Cardinality(S) # Len(M.sel)
                \/ (\E v \in Range(M.var) : Len(v.k) # Len(M.sel))
             THEN {"selectors"}
             ELSE LET e(j) == NExp(se[j][1])
                      K(s) == UNION {{v.key : v \in Range(x.var)} : x \in {y \in Range(sites) : SelE(y) = s}} \cup UNION {ColKeys(M, j) : j \in {i \in 1..Len(M.sel) : e(i) = s}}
                  IN UNION {
                       If(\A f \in KeyChoices(S, K) :
                            LET b == BestVar(M.var, [j \in 1..Len(M.sel) |-> f[e(j)]])
                            IN b # 0 /\ NPat(M.var[b].p) = MParts(Resolve(P, f, "model")), "variant"),
                       \* the default keys are named as in the source
                       If(\A v \in Range(M.var) : \A j \in 1..Len(M.sel) : v.k[j].t = "any" =>
                            \E x \in Range(sites) : SelE(x) = e(j) /\ \E w \in Range(x.var) : w.def /\ <<61>> \o w.key = v.k[j].s, "default"),
                       \* a placeholder with a declared name is what is declared
                       If(\A v \in Range(M.var) : \A p \in Range(v.p) : p.t = "exp" /\ p.arg.t = "var" =>
                            \A j \in 1..Len(M.sel) : M.sel[j] = p.arg.s => se[j][1].arg = p.arg /\ \A at \in Range(se[j][1].attr) : at.n # cFluentFn, "shadow")}

\* the line of a 0-based offset
Line(text, off) == 1 + Len(SelectSeq(SubSeq(text, 1, off), LAMBDA c : c = 10))

ParseEntry(e, text, lp) ==
  LET names == {a.n : a \in Range(e.attrs)}
      last(n) == e.attrs[SelectLastInSeq(e.attrs, LAMBDA a : a.n = n)]
      vs == IF e.hasval THEN e.vs ELSE e.ks
      ve == IF e.attrs # <<>> THEN e.attrs[Len(e.attrs)].ve ELSE IF e.hasval THEN e.ve ELSE e.ke
  IN [t |-> "ent", id |-> (IF e.t = "term" THEN <<45>> ELSE <<>>) \o e.id, com |-> e.com, val |-> e.val,
      props |-> {[n |-> n, p |-> last(n).p] : n \in names},
      lp |-> IF lp THEN <<Line(text, IF e.com # <<>> THEN e.cs ELSE e.st), Line(text, e.ks), Line(text, vs), Line(text, ve) + 1>> ELSE <<>>]
Span(e, text, lp) == IF lp THEN <<Line(text, e.st), Line(text, e.st), Line(text, e.st), Line(text, e.e) + 1>> ELSE <<>>
NoSec == [com |-> <<>>, lp |-> <<>>, ents |-> <<>>]
\* a group comment starts a section, a resource comment adds to that of the resource,
\* a comment that starts the file is about the file
ParseBody(body, text, lp) ==
  LET info == body # <<>> /\ body[1].t = "com" /\ body[1].s # <<>>
      step(st, e) ==
        CASE e.t \in {"msg", "term"} -> [st EXCEPT !.cur.ents = Append(@, ParseEntry(e, text, lp))]
          [] e.t = "rescom" -> IF e.s = <<>> THEN st ELSE [st EXCEPT !.com = IF @ = <<>> THEN e.s ELSE TrimRight(@, PyWhite) \o <<10, 10>> \o e.s]
          [] e.t = "group" ->
               LET new == [com |-> e.s, lp |-> Span(e, text, lp), ents |-> <<>>]
               IN IF st.cur.ents # <<>> \/ st.cur.com # <<>> THEN [st EXCEPT !.secs = Append(@, st.cur), !.cur = new] ELSE [st EXCEPT !.cur = new]
          [] e.t = "com" -> IF e.s = <<>> THEN st ELSE [st EXCEPT !.cur.ents = Append(@, [t |-> "com", com |-> e.s, lp |-> Span(e, text, lp)])]
      end == FoldLeft(step, [com |-> <<>>, secs |-> <<>>, cur |-> NoSec], IF info THEN Tail(body) ELSE body)
  IN [info |-> IF info THEN body[1].s ELSE <<>>, com |-> end.com, secs |-> Append(end.secs, end.cur)]

EntVs(x, e) ==
  IF x.t # e.t THEN {"entry-type"}
  ELSE IF x.t = "com" THEN If(x.com = e.com, "comment") \cup If(x.lp = e.lp, "linepos")
  ELSE UNION {If(e.id = <<x.id>>, "id"), If(e.com = x.com, "comment"), If(e.meta = <<>>, "meta"), If(e.lp = x.lp, "linepos"),
              MsgVsAst(x.val, e.val),
              IF {y.n : y \in x.props} # {y.n : y \in Range(e.props)} \/ Cardinality(x.props) # Len(e.props) THEN {"properties"}
              ELSE UNION {MsgVsAst(y.p, e.props[SelectInSeq(e.props, LAMBDA z : z.n = y.n)].v) : y \in x.props}}
SeqVs(xs, es, V(_, _)) == IF Len(xs) # Len(es) THEN {"length"} ELSE UNION {V(xs[i], es[i]) : i \in 1..Len(xs)}
SecVs(x, s) == UNION {If(s.id = <<>> /\ s.meta = <<>>, "section"), If(s.com = x.com, "section-comment"), If(s.lp = x.lp, "section-linepos"), SeqVs(x.ents, s.ents, EntVs)}
BodyOk(body) == \A e \in Range(body) : e.t # "junk" /\ (e.t \in {"msg", "term"} => PatOk(e.val) /\ \A a \in Range(e.attrs) : PatOk(a.p))
\* what is said only by variants that are never selected may be refused
BodyBad(body) == \E e \in Range(body) : e.t = "junk" \/ (e.t \in {"msg", "term"} /\ (~PatOkReached(e.val) \/ \E a \in Range(e.attrs) : ~PatOkReached(a.p)))
ParseV(ev) ==
  IF BodyBad(ev.body) THEN If(ev.raised /\ ev.ve, "accepted")
  ELSE IF ev.raised /\ ~BodyOk(ev.body) THEN If(ev.ve, "accepted")
  ELSE IF ev.raised THEN {"refused"}
  ELSE LET x == ParseBody(ev.body, ev.text, ev.lp)
       IN UNION {If(ev.res.com = x.com, "resource-comment"),
                 If(ev.res.meta = IF x.info = <<>> THEN <<>> ELSE <<[k |-> cInfo, v |-> x.info]>>, "info"),
                 SeqVs(x.secs, ev.res.secs, SecVs)}
\* one entry, one pattern
ParseEntryV(ev) ==
  IF Len(ev.body) # 1 \/ BodyBad(ev.body) \/ ev.body[1].t \notin {"msg", "term"} THEN If(ev.raised /\ ev.ve, "accepted")
  ELSE IF ev.raised THEN If(ev.ve /\ ~BodyOk(ev.body), "refused") ELSE EntVs(ParseEntry(ev.body[1], ev.text, ev.lp), ev.out)
ParseMsgV(ev) ==
  IF ev.blank THEN If(~ev.raised /\ MsgVsAst(<<>>, ev.out) = {}, "blank")
  ELSE IF Len(ev.body) # 1 \/ BodyBad(ev.body) \/ ev.body[1].t # "msg" THEN If(ev.raised /\ ev.ve, "accepted")
  ELSE IF ev.body[1].attrs # <<>> THEN If(ev.raised /\ ev.ve, "accepted")
  ELSE IF ev.raised THEN If(ev.ve /\ ~BodyOk(ev.body), "refused") ELSE MsgVsAst(ev.body[1].val, ev.out)

---------------------------------------------------------------------------
(* Serializing: a pattern for a message *)
Bad == [t |-> "bad"]
None == [t |-> "none"]
Str(s) == [t |-> "str", v |-> s]
FluentFn(e) == LET k == SelectInSeq(e.attr, LAMBDA a : a.n = cFluentFn) IN IF k = 0 THEN NoArg ELSE e.attr[k].v
\* [ok, term, n, a] of a message or term name
Ref(s) ==
  LET u == IF At(s, 1) = 45 THEN Tail(s) ELSE s
      k == IndexFrom(u, 46, 1)
      n == IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)
      a == IF k = 0 THEN <<>> ELSE From(u, k + 1)
  IN [ok |-> IsId(n) /\ (k # 0 => IsId(a)), term |-> At(s, 1) = 45, n |-> n, a |-> a]

AFun(e, arg, named) ==
  LET ff == FluentFn(e)
      has == ff.t = "true" \/ (ff.t = "lit" /\ ff.s # <<>>)
      fn(n) == IF ~IsFn(n) THEN Bad ELSE [t |-> "fn", n |-> n, pos |-> IF arg.t = "none" THEN <<>> ELSE <<arg>>, named |-> named]
      own == IF ff.t = "lit" THEN fn(ff.s) ELSE Bad
      r == IF arg.t \in {"num", "str"} THEN Ref(arg.v) ELSE [ok |-> FALSE]
  IN CASE e.fn \in {cNumber, cDatetime} /\ arg.t = "none" -> Bad
       [] has -> own
       [] e.fn = cString -> IF arg.t = "none" \/ named # {} THEN Bad ELSE arg
       [] e.fn = cDatetime -> fn(cDATETIME)
       [] e.fn = cNumber -> IF named = {} THEN arg ELSE fn(cNUMBER)
       [] e.fn = cMessage -> IF ~r.ok THEN Bad
                             ELSE IF r.term THEN [t |-> "term", n |-> r.n, a |-> r.a, pos |-> <<>>, named |-> named]
                             ELSE IF named # {} THEN Bad ELSE [t |-> "msg", n |-> r.n, a |-> r.a]
       [] OTHER -> Bad
RECURSIVE AVal(_, _, _)
AVal(decl, v, dn) ==
  IF v.t = "lit" THEN IF IsNum(v.s) THEN [t |-> "num", v |-> v.s] ELSE Str(v.s)
  ELSE LET d == IF v.s = dn THEN <<>> ELSE DeclOf(decl, v.s)
       IN IF d = <<>> THEN IF IsId(v.s) THEN [t |-> "var", n |-> v.s] ELSE Bad
          ELSE LET e == d[1]
                   arg == IF e.arg.t = "none" THEN None
                          ELSE IF e.arg.t = "lit" /\ e.fn \in {<<>>, cString} THEN Str(e.arg.s)
                          ELSE AVal(decl, e.arg, v.s)
                   named == {[n |-> o.n, v |-> AVal(decl, o.v, <<>>)] : o \in Range(e.opt)}
               IN IF e.t # "exp" \/ arg.t = "bad" \/ (\E o \in named : ~IsId(o.n) \/ o.v.t \notin {"num", "str"}) THEN Bad
                  ELSE IF e.fn = <<>> THEN IF arg.t = "none" \/ named # {} THEN (IF arg.t = "none" THEN Bad ELSE arg) ELSE arg
                  ELSE AFun(e, arg, named)
\* a placeholder: as the value of a variable no one else has
cTmp == <<0>>
AExp(decl, e) == IF e.t # "exp" THEN Bad
                 ELSE LET x == AVal(Append(decl, [n |-> cTmp, e |-> e]), Var(cTmp), <<>>) IN IF x.t = "term" /\ x.a # <<>> THEN Bad ELSE x
ASel(M, j) ==
  LET x == AVal(M.decl, Var(M.sel[j]), <<>>)
  IN CASE x.t = "msg" -> Bad
       [] x.t = "term" -> IF x.a = <<>> THEN Bad ELSE x
       [] x.t = "fn" -> IF x.n = cNUMBER /\ x.named = {} /\ Len(x.pos) = 1 /\ x.pos[1].t = "var" THEN x.pos[1] ELSE x
       [] OTHER -> x
KeyOk(s) == IsNum(s) \/ IsId(s)
PatBad(decl, P) == \E p \in Range(P) : p.t # "txt" /\ (p.t # "exp" \/ AExp(decl, p).t = "bad")
SameKey(a, b) == a.t = b.t /\ (a.t = "any" \/ a.s = b.s)
MsgBad(M) ==
  CASE M.t = "str" -> FALSE
    [] M.t = "pat" -> PatBad(M.decl, M.p)
    [] OTHER -> \/ \E v \in Range(M.var) : PatBad(M.decl, v.p)
                \/ \E j \in 1..Len(M.sel) : ASel(M, j).t = "bad" \/ \E s \in ColKeys(M, j) : ~KeyOk(s)
                \/ \E v \in Range(M.var) : \E j \in 1..Len(M.sel) :
                     \/ v.k[j].t = "any" /\ Len(v.k[j].s) > 1 /\ Tail(v.k[j].s) \notin ColKeys(M, j) /\ ~KeyOk(Tail(v.k[j].s))
                     \* a select has a default
                     \/ ~\E w \in Range(M.var) : w.k[j].t = "any" /\ \A i \in 1..(j - 1) : SameKey(v.k[i], w.k[i])

\* what a pattern formats: literals are text
NF(P) == Merge([i \in 1..Len(P) |-> IF P[i].t = "txt" THEN P[i] ELSE IF P[i].t = "str" THEN [t |-> "txt", s |-> P[i].v] ELSE NAst(P[i])])
XF(decl, P) == Merge([i \in 1..Len(P) |-> IF P[i].t = "txt" THEN P[i] ELSE LET x == AExp(decl, P[i]) IN IF x.t = "str" THEN [t |-> "txt", s |-> x.v] ELSE x])
Dedent(s) == FoldLeft(LAMBDA a, c : IF c = 32 /\ (a = <<>> \/ a[Len(a)] = 10) THEN a ELSE Append(a, c), <<>>, s)
StrEq(P, s) ==
  LET n == NF(P)
      t == TrimSet(IF n = <<>> THEN <<>> ELSE n[1].s, PyWhite)
      u == TrimSet(s, PyWhite)
  IN (n = <<>> \/ (Len(n) = 1 /\ n[1].t = "txt")) /\ (IF At(s, 1) \in {10, 32} THEN Dedent(t) = Dedent(u) ELSE t = u)
\* a default with no name of its own is called other, or like it if there is another of that name
OtherKey == <<111, 116, 104, 101, 114>>
MsgKeys(M) == UNION {ColKeys(M, j) : j \in 1..Len(M.sel)} \cup UNION {{Tail(M.var[i].k[j].s) : i \in {x \in 1..Len(M.var) : M.var[x].k[j].t = "any" /\ M.var[x].k[j].s # <<>>}} : j \in 1..Len(M.sel)}
PatVs(P, M) ==
  CASE M.t = "str" -> If(Sites(P) = <<>> /\ StrEq(P, M.s), "text")
    [] M.t = "pat" -> If(Sites(P) = <<>> /\ NF(P) = XF(M.decl, M.p), "pattern")
    [] OTHER ->
         LET sites == Sites(P)
             n == Len(M.sel)
             e(j) == ASel(M, j)
             S == {e(j) : j \in 1..n}
         IN IF {NAst(x.sel) : x \in Range(sites)} # S THEN {"selectors"}
            ELSE LET K(s) == UNION {{v.key : v \in Range(x.var)} : x \in {y \in Range(sites) : NAst(y.sel) = s}} \cup UNION {ColKeys(M, j) : j \in {i \in 1..n : e(i) = s}}
                     names(j) == {M.var[i].k[j].s : i \in {x \in 1..Len(M.var) : M.var[x].k[j].t = "any"}}
                 IN UNION {If(\A f \in KeyChoices(S, K) :
                                LET b == BestVar(M.var, [j \in 1..n |-> f[e(j)]])
                                IN b = 0 \/ NF(Resolve(P, f, "ast")) = XF(M.decl, M.var[b].p), "variant"),
                           If(\A x \in Range(sites) : \A v \in Range(x.var) : v.def =>
                                \E j \in 1..n : e(j) = NAst(x.sel) /\ \E s \in names(j) :
                                  IF Len(s) <= 1 \/ Tail(s) \in ColKeys(M, j) THEN v.key \notin ColKeys(M, j) /\ Len(v.key) >= 5 /\ SubSeq(v.key, 1, 5) = OtherKey /\ (OtherKey \notin MsgKeys(M) => v.key = OtherKey)
                                  ELSE v.key = Tail(s), "default")}

\* a message with no text and attributes has no value
Blank(M) == CASE M.t = "str" -> TrimSet(M.s, PyWhite) = <<>>
              [] M.t = "pat" -> XF(M.decl, M.p) = <<>> /\ \A p \in Range(M.p) : p.t = "txt"
              [] OTHER -> FALSE
Lf(s) == LET u == FoldLeft(LAMBDA a, c : IF c = 10 /\ a # <<>> /\ a[Len(a)] = 13 THEN [a EXCEPT ![Len(a)] = 10] ELSE Append(a, c), <<>>, s)
         IN IF u # <<>> /\ u[Len(u)] = 13 THEN SubSeq(u, 1, Len(u) - 1) ELSE u
\* the serializer of metadata used here
cSkip == <<115, 107, 105, 112>>
MetaStr(m) == IF m.k = cSkip THEN <<>> ELSE TrimSet(<<64>> \o m.k \o <<58, 32>> \o m.v, {10})
ComStr(com, meta) == FoldLeft(LAMBDA a, m : IF MetaStr(m) = <<>> THEN a ELSE IF a = <<>> THEN MetaStr(m) ELSE a \o <<10>> \o MetaStr(m), TrimRight(com, PyWhite), meta)
ResMeta(meta) == IF meta # <<>> /\ meta[1].k = cInfo THEN Tail(meta) ELSE meta
EntBad(e, o) ==
  \/ Len(e.id) # 1 \/ ~IsId(IF At(e.id[1], 1) = 45 THEN Tail(e.id[1]) ELSE e.id[1])
  \/ MsgBad(e.val) \/ (\E p \in Range(e.props) : ~IsId(p.n) \/ MsgBad(p.v))
  \/ (~o.trim /\ ~o.meta /\ e.meta # <<>>)
ResBad(r, o) ==
  \/ ~o.trim /\ ~o.meta /\ (ResMeta(r.meta) # <<>> \/ \E s \in Range(r.secs) : s.meta # <<>>)
  \/ \E s \in Range(r.secs) : s.id # <<>> \/ \E e \in Range(s.ents) : e.t = "ent" /\ EntBad(e, o)
XEnt(e, o) ==
  LET term == At(e.id[1], 1) = 45
  IN [t |-> IF term THEN "term" ELSE "msg", id |-> IF term THEN Tail(e.id[1]) ELSE e.id[1], com |-> IF o.trim THEN <<>> ELSE Lf(ComStr(e.com, e.meta)),
      hasval |-> IF term \/ e.props = <<>> THEN {TRUE} ELSE IF e.val.t = "str" /\ Blank(e.val) THEN {FALSE, ~(Range(e.val.s) \subseteq {10} \/ Range(e.val.s) \subseteq {32})} ELSE {~Blank(e.val)}, val |-> e.val, props |-> e.props]
XBody(r, o) ==
  LET com(t, s) == <<[t |-> t, s |-> Lf(s)]>>
      info == IF ~o.trim /\ r.meta # <<>> /\ r.meta[1].k = cInfo /\ r.meta[1].v # <<>> THEN com("com", r.meta[1].v) ELSE <<>>
      rc == ComStr(r.com, ResMeta(r.meta))
      sec(i) == LET s == r.secs[i]
                    sc == ComStr(s.com, s.meta)
                IN (IF ~o.trim /\ (i # 1 \/ sc # <<>>) THEN com("group", sc) ELSE <<>>)
                   \o Concat([j \in 1..Len(s.ents) |-> IF s.ents[j].t = "ent" THEN <<XEnt(s.ents[j], o)>> ELSE IF o.trim THEN <<>> ELSE com("com", s.ents[j].com)])
  IN info \o (IF ~o.trim /\ rc # <<>> THEN com("rescom", rc) ELSE <<>>) \o Concat([i \in 1..Len(r.secs) |-> sec(i)])
BodyVs(x, b) ==
  IF x.t # b.t THEN {"body"}
  ELSE IF x.t \in {"com", "group", "rescom"} THEN If(x.s = b.s, "comment")
  ELSE UNION {If(x.id = b.id, "id"), If(x.com = b.com, "comment"), If(b.hasval \in x.hasval, "value"),
              IF b.hasval THEN PatVs(b.val, x.val) ELSE {},
              IF {p.n : p \in Range(x.props)} # {a.n : a \in Range(b.attrs)} \/ Len(x.props) # Len(b.attrs) THEN {"attributes"}
              ELSE UNION {PatVs(b.attrs[SelectInSeq(b.attrs, LAMBDA a : a.n = p.n)].p, p.v) : p \in Range(x.props)}}
SerV(ev) ==
  IF ResBad(ev.res, ev.opts) THEN If(ev.raised /\ ev.ve, "accepted")
  ELSE IF ev.raised THEN {"refused"}
  ELSE SeqVs(XBody(ev.res, ev.opts), ev.body, BodyVs)
SerMsgV(ev) ==
  IF MsgBad(ev.msg) THEN If(ev.raised /\ ev.ve, "accepted")
  ELSE IF ev.raised THEN {"refused"}
  ELSE IF ev.blank THEN If(Blank(ev.msg), "blank")
  ELSE IF Len(ev.body) # 1 THEN {"body"} ELSE IF ev.body[1].t # "msg" THEN {"body"} ELSE PatVs(ev.body[1].val, ev.msg)
\* text with syntax that is not escaped says what it says in Fluent
RawV(ev) == If(~ev.raised /\ Len(ev.body) = 1 /\ ev.body[1].t = "msg" /\ NF(ev.body[1].val) = NF(ev.want), "raw")

FluentVerdict(ev) ==
  CASE ev.op = "parse" -> ParseV(ev)
    [] ev.op = "pe" -> ParseEntryV(ev)
    [] ev.op = "pm" -> ParseMsgV(ev)
    [] ev.op = "ser" -> SerV(ev)
    [] ev.op = "sm" -> SerMsgV(ev)
    [] ev.op = "raw" -> RawV(ev)
=============================================================================
