---------------------------- MODULE JsonFormats ----------------------------
(* C19: plain JSON and WebExtensions messages.json                          *)
EXTENDS JsonText
D == 36
NameChar == Alpha \cup Digit \cup {64, 95}
LowerOf(s) == [i \in 1..Len(s) |-> IF s[i] \in Upper THEN s[i] + 32 ELSE s[i]]
\* the tokens of a message: text with $$ undone, $1 to $9, $name$
MsgTokens(s) ==
  LET n == Len(s)
      NameEnd(i) == LET k == SelectInSeq(From(s, i), LAMBDA c : c \notin NameChar) IN IF k = 0 THEN n + 1 ELSE i + k - 1
      RunEnd(i) == LET k == SelectInSeq(From(s, i), LAMBDA c : c # D) IN IF k = 0 THEN n + 1 ELSE i + k - 1
      Txt(toks, t) == IF toks # <<>> /\ Last(toks).t = "txt" THEN [toks EXCEPT ![Len(toks)].s = @ \o t] ELSE Append(toks, [t |-> "txt", s |-> t])
      r == FoldLeft(LAMBDA st, i :
             IF i < st.next THEN st
             ELSE IF s[i] # D THEN [next |-> i + 1, toks |-> Txt(st.toks, <<s[i]>>)]
             ELSE LET e == NameEnd(i + 1) IN
               IF e > i + 1 /\ At(s, e) = D THEN [next |-> e + 1, toks |-> Append(st.toks, [t |-> "name", s |-> SubSeq(s, i + 1, e - 1)])]
               ELSE IF At(s, i + 1) \in 49..57 THEN [next |-> i + 2, toks |-> Append(st.toks, [t |-> "pos", s |-> <<s[i + 1]>>])]
               ELSE IF At(s, i + 1) = D THEN [next |-> RunEnd(i), toks |-> Txt(st.toks, SubSeq(s, i + 1, RunEnd(i) - 1))]
               ELSE [next |-> i + 1, toks |-> Txt(st.toks, <<D>>)],
             [next |-> 1, toks |-> <<>>], [i \in 1..n |-> i])
  IN r.toks
Render(toks) ==
  LET Esc(t) == Concat([i \in 1..Len(t) |-> IF t[i] = D /\ At(t, i - 1) # D THEN <<D, D>> ELSE <<t[i]>>])
  IN Concat([i \in 1..Len(toks) |-> CASE toks[i].t = "txt" -> Esc(toks[i].s) [] toks[i].t = "pos" -> <<D>> \o toks[i].s [] OTHER -> <<D>> \o toks[i].s \o <<D>>])
cArg == <<97, 114, 103>>
ArgName(n) == cArg \o n
IsArg(v) == Len(v) = 4 /\ SubSeq(v, 1, 3) = cArg /\ v[4] \in 49..57
IsPos(v) == Len(v) = 2 /\ v[1] = D /\ v[2] \in 49..57
\* the variable that stands for a named placeholder, unless taken
VarName(n) == LET v == [i \in 1..Len(n) |-> IF n[i] = 64 THEN 95 ELSE n[i]] IN IF v[1] \in Digit THEN <<95>> \o v ELSE v
cMessage == <<109, 101, 115, 115, 97, 103, 101>>
cDescription == <<100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>
cPlaceholders == <<112, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114, 115>>
cContent == <<99, 111, 110, 116, 101, 110, 116>>
cExample == <<101, 120, 97, 109, 112, 108, 101>>
NoEx == [has |-> FALSE, val |-> <<>>]
\* the placeholder of a name in a placeholders value, as [ok, content, ex]
PlOf(pls, name) ==
  LET ks == SelectSeq(pls.m, LAMBDA f : LowerOf(f.k) = LowerOf(name)) IN
  IF ks = <<>> THEN [ok |-> FALSE]
  ELSE LET v == Last(ks).v IN
    IF v.t # "obj" THEN [ok |-> FALSE]
    ELSE IF ~Has(v, cContent) THEN [ok |-> FALSE]
    ELSE IF Get(v, cContent).t # "str" THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, content |-> Get(v, cContent).s, ex |-> IF ~Has(v, cExample) THEN NoEx ELSE IF Get(v, cExample).t = "str" THEN [has |-> TRUE, val |-> Get(v, cExample).s] ELSE [has |-> TRUE, val |-> <<-1>>]]
EmptyObj == [t |-> "obj", m |-> <<>>]
\* a message of messages.json as [ok, free, ...]; free if not constrained
MsgOf(v) ==
  IF v.t # "obj" THEN [ok |-> FALSE, free |-> FALSE]
  ELSE IF ~Has(v, cMessage) THEN [ok |-> FALSE, free |-> FALSE]
  ELSE IF Get(v, cMessage).t # "str" THEN [ok |-> FALSE, free |-> FALSE]
  ELSE LET toks == MsgTokens(Get(v, cMessage).s)
           desc == IF Has(v, cDescription) THEN Get(v, cDescription) ELSE [t |-> "str", s |-> <<>>]
           p0 == IF Has(v, cPlaceholders) THEN Get(v, cPlaceholders) ELSE EmptyObj
           pls == IF IsNull(p0) THEN EmptyObj ELSE p0
           names == SelectSeq(toks, LAMBDA t : t.t = "name")
       IN IF desc.t # "str" \/ pls.t # "obj" THEN [ok |-> FALSE, free |-> TRUE]
          ELSE LET ph == [i \in 1..Len(names) |-> PlOf(pls, names[i].s)] IN
            IF \E i \in 1..Len(names) : ~ph[i].ok THEN [ok |-> FALSE, free |-> FALSE]
            ELSE IF \E i \in 1..Len(names) : ph[i].ex.val = <<-1>> THEN [ok |-> FALSE, free |-> TRUE]
            ELSE [ok |-> TRUE, free |-> FALSE, com |-> desc.s, raw |-> Get(v, cMessage).s, toks |-> toks, names |-> [i \in 1..Len(names) |-> [n |-> names[i].s, c |-> ph[i].content, ex |-> ph[i].ex]]]
\* a parsed message (pattern parts and declarations) is the one described by x
IsMessage(m, x) ==
  LET P == SelectSeq([i \in 1..Len(m.p) |-> [p |-> m.p[i], t |-> x.toks[i]]], LAMBDA z : z.t.t = "name")
      low(i) == LowerOf(x.names[i].n)
      fst(i) == SelectInSeq(x.names, LAMBDA y : LowerOf(y.n) = low(i))
      firsts == SelectSeq([i \in 1..Len(P) |-> i], LAMBDA i : fst(i) = i)
  IN /\ \A i \in 1..Len(m.p) :
          CASE x.toks[i].t = "txt" -> m.p[i].t = "txt" /\ m.p[i].s = x.toks[i].s
            [] x.toks[i].t = "pos" -> m.p[i].t = "ph" /\ m.p[i].name = ArgName(x.toks[i].s) /\ m.p[i].src = <<D>> \o x.toks[i].s
            [] OTHER -> m.p[i].t = "ph" /\ m.p[i].src = <<D>> \o x.toks[i].s \o <<D>>
     /\ \A i, j \in 1..Len(P) : P[i].p.name = P[j].p.name <=> low(i) = low(j)
     \* names as in the source, unless several would have the same one
     /\ \A i \in 1..Len(P) : LET d == VarName(x.names[fst(i)].n) IN
          P[i].p.name = d \/ IsArg(d) \/ \E j \in 1..Len(P) : low(i) # low(j) /\ VarName(x.names[fst(j)].n) = d
     /\ \A i \in 1..Len(P) : ~IsArg(P[i].p.name)
     /\ Len(m.decl) = Len(firsts)
     /\ \A k \in 1..Len(firsts) : LET y == x.names[firsts[k]] d == m.decl[k] IN
          /\ d.n = P[firsts[k]].p.name /\ d.ex = y.ex
          /\ IF IsPos(y.c) THEN d.k = "arg" /\ d.v = ArgName(Tail(y.c)) /\ d.src = y.c ELSE d.k = "lit" /\ d.v = y.c /\ d.src = <<>>
If1(c, n) == IF c THEN {} ELSE {n}
\* the message of one parsed with given placeholders
MsgVerdict(raised, m, x) ==
  IF x.free THEN {}
  ELSE IF ~x.ok THEN If1(raised, "accepted")
  ELSE IF raised THEN {"rejected"}
  ELSE IF m.odd \/ Len(m.p) # Len(x.toks) THEN {"pattern"}
  ELSE If1(IsMessage(m, x), "pattern")
WebextParse(raised, ents, text) ==
  LET j == ParseJson(text, TRUE) IN
  IF ~j.known THEN {}
  ELSE IF ~j.ok THEN If1(raised, "accepted")
  ELSE IF j.v.t # "obj" THEN If1(raised, "accepted")
  ELSE LET ms == [i \in 1..Len(j.v.m) |-> MsgOf(j.v.m[i].v)] IN
    IF \E i \in 1..Len(ms) : ~ms[i].ok THEN (IF \E i \in 1..Len(ms) : ms[i].free THEN {} ELSE If1(raised, "accepted"))
    ELSE IF raised THEN {"rejected"}
    ELSE IF Len(ents) # Len(ms) THEN {"entries"}
    ELSE If1(\A i \in 1..Len(ms) : ents[i].id = <<j.v.m[i].k>> /\ ents[i].com = ms[i].com, "entries")
         \cup If1(\A i \in 1..Len(ms) : MsgVerdict(FALSE, ents[i].val, ms[i]) = {}, "pattern")
PlainParse(raised, ents, text) ==
  LET j == ParseJson(text, FALSE) IN
  IF ~j.known THEN {}
  ELSE IF ~j.ok THEN If1(raised, "accepted")
  ELSE IF j.v.t # "obj" THEN If1(raised, "accepted")
  ELSE LET ls == Leaves(<<>>, j.v) IN
    IF \E i \in 1..Len(ls) : ~ls[i].ok THEN If1(raised, "accepted")
    ELSE IF raised THEN {"rejected"}
    ELSE If1(ents = [i \in 1..Len(ls) |-> [id |-> ls[i].p, com |-> <<>>, s |-> ls[i].v]], "entries")

-------------------------------------------------------------------------------
(* Serializing: what an abstract message says, and when it can be said         *)
Merge(ps) == FoldLeft(LAMBDA a, p : IF p.t = "txt" THEN (IF p.s = <<>> THEN a ELSE IF a # <<>> /\ Last(a).t = "txt" THEN [a EXCEPT ![Len(a)].s = @ \o p.s] ELSE Append(a, p)) ELSE Append(a, p), <<>>, ps)
DeclOf(m, n) == SelectInSeq(m.decl, LAMBDA d : d.n = n)
\* [ok, t, s] with c and ex for names
Said(m, p) ==
  CASE p.t = "txt" -> [ok |-> TRUE, t |-> "txt", s |-> p.s, c |-> <<>>, ex |-> NoEx]
    [] p.t = "odd" -> [ok |-> FALSE]
    [] OTHER ->
       LET k == DeclOf(m, p.name) IN
       IF k = 0 THEN LET src == IF p.hassrc THEN p.src ELSE IF IsArg(p.name) THEN <<D>> \o From(p.name, 4) ELSE p.name
                     IN IF IsPos(src) THEN [ok |-> TRUE, t |-> "pos", s |-> Tail(src), c |-> <<>>, ex |-> NoEx] ELSE [ok |-> FALSE]
       ELSE LET d == m.decl[k]
                name == IF p.hassrc /\ Len(p.src) >= 3 /\ p.src[1] = D /\ Last(p.src) = D THEN SubSeq(p.src, 2, Len(p.src) - 1) ELSE p.name
                c == IF d.hassrc THEN d.src ELSE IF d.k = "arg" THEN <<D>> \o From(d.v, 4) ELSE d.v
            IN IF d.fn \/ d.badex \/ (~d.hassrc /\ (d.k = "none" \/ (d.k = "arg" /\ ~IsArg(d.v)))) \/ name = <<>> \/ ~All(name, LAMBDA x : x \in NameChar) THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, t |-> "name", s |-> name, c |-> c, ex |-> d.ex]
MsgSaid(m) == LET ps == Merge(m.p) IN [i \in 1..Len(ps) |-> Said(m, ps[i])]
MsgExpressible(m) ==
  /\ m.t = "pat"
  /\ LET x == MsgSaid(m) IN
     /\ \A i \in 1..Len(x) : x[i].ok
     /\ \A i, j \in 1..Len(x) : x[i].t = "name" /\ x[j].t = "name" /\ LowerOf(x[i].s) = LowerOf(x[j].s) => x[i].c = x[j].c /\ x[i].ex = x[j].ex
     /\ LET toks == [i \in 1..Len(x) |-> [t |-> x[i].t, s |-> x[i].s]] IN MsgTokens(Render(toks)) = toks
Entries(res) == Concat([i \in 1..Len(res.secs) |-> res.secs[i].ents])
WebextExpressible(res) ==
  LET es == Entries(res) IN
  /\ ~res.noted
  /\ \A i \in 1..Len(res.secs) : res.secs[i].id = <<>> /\ ~res.secs[i].noted
  /\ \A i \in 1..Len(es) : Len(es[i].id) = 1 /\ ~es[i].meta /\ (es[i].val.t = "str" \/ MsgExpressible(es[i].val))
  /\ \A i, j \in 1..Len(es) : i # j => es[i].id # es[j].id
\* v, a message of the JSON text, is the entry e
SaysMsg(e, v) ==
  LET x == MsgOf(v) IN
  IF e.val.t = "str" THEN v.t = "obj" /\ Has(v, cMessage) /\ Get(v, cMessage) = [t |-> "str", s |-> e.val.s] /\ ~Has(v, cPlaceholders) /\ e.com = (IF Has(v, cDescription) THEN Get(v, cDescription).s ELSE <<>>)
  ELSE LET y == MsgSaid(e.val)
           names == SelectSeq(y, LAMBDA t : t.t = "name")
       IN /\ x.ok /\ x.com = e.com
          /\ [i \in 1..Len(x.toks) |-> <<x.toks[i].t, IF x.toks[i].t = "name" THEN LowerOf(x.toks[i].s) ELSE x.toks[i].s>>] = [i \in 1..Len(y) |-> <<y[i].t, IF y[i].t = "name" THEN LowerOf(y[i].s) ELSE y[i].s>>]
          /\ \A i \in 1..Len(names) : x.names[i].c = names[i].c /\ x.names[i].ex = names[i].ex
PathPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
TextVal(e) == IF e.val.t = "str" THEN e.val.s ELSE Concat([i \in 1..Len(e.val.p) |-> e.val.p[i].s])
PlainPaths(res) == Concat([i \in 1..Len(res.secs) |-> [k \in 1..Len(res.secs[i].ents) |-> res.secs[i].id \o res.secs[i].ents[k].id]])
PlainExpressible(res) ==
  LET es == Entries(res) ps == PlainPaths(res) IN
  /\ ~res.noted
  /\ \A i \in 1..Len(res.secs) : ~res.secs[i].noted
  /\ \A i \in 1..Len(es) : es[i].id # <<>> /\ ~es[i].meta /\ es[i].com = <<>> /\ (es[i].val.t = "str" \/ (es[i].val.t = "pat" /\ \A k \in 1..Len(es[i].val.p) : es[i].val.p[k].t = "txt"))
  /\ \A i, j \in 1..Len(ps) : i # j => ~PathPrefix(ps[i], ps[j])
  \* a section is an object even if empty
  /\ \A i \in 1..Len(ps) : \A k \in 1..Len(res.secs) : ~PathPrefix(ps[i], res.secs[k].id)
JsonFormatsVerdict(ev) ==
  CASE ev.op = "loads" ->
         LET j == ParseJson(ev.text, TRUE) IN
         IF ~j.known THEN {} ELSE IF ~j.ok THEN If1(ev.raised, "accepted") ELSE IF ev.raised THEN {"rejected"}
         ELSE If1(ev.valid = ~j.com, "valid") \cup If1(ParseJson(ev.dump, FALSE).ok /\ ParseJson(ev.dump, FALSE).v = j.v, "value")
    [] ev.op = "msg" -> MsgVerdict(ev.raised, ev.msg, MsgOf(ParseJson(ev.text, FALSE).v)) \cup If1(ev.pure, "purity")
    [] ev.op = "parse" /\ ev.fmt = "webext" -> WebextParse(ev.raised, ev.ents, ev.text) \cup If1(ev.shape, "shape")
    [] ev.op = "parse" -> PlainParse(ev.raised, ev.ents, ev.text) \cup If1(ev.shape, "shape") \cup (IF ev.raised THEN If1(ev.ve, "wrong_error") ELSE {})
    [] ev.op = "ser" ->
       LET ok == IF ev.fmt = "webext" THEN WebextExpressible(ev.res) ELSE PlainExpressible(ev.res) IN
       IF ev.raised THEN If1(~ok, "refused") \cup If1(ev.ve, "wrong_error")
       ELSE IF ~ok THEN {"not_refused"}
       ELSE LET j == ParseJson(ev.text, FALSE)
                es == Entries(ev.res)
            IN IF ~j.ok THEN {"malformed"}
               ELSE IF j.v.t # "obj" THEN {"malformed"}
               ELSE IF ev.fmt = "webext"
               THEN If1(Len(j.v.m) = Len(es) /\ \A i \in 1..Len(es) : j.v.m[i].k = es[i].id[1] /\ SaysMsg(es[i], j.v.m[i].v), "content")
                    \cup (IF \E i \in 1..Len(es) : es[i].val.t = "str" THEN {} ELSE WebextParse(ev.braised, ev.back, ev.text))
               ELSE LET ls == Leaves(<<>>, j.v) ps == PlainPaths(ev.res) IN
                    If1(Len(ls) = Len(es) /\ {<<ls[i].p, ls[i].v>> : i \in 1..Len(ls)} = {<<ps[i], TextVal(es[i])>> : i \in 1..Len(es)}, "content") \cup PlainParse(ev.braised, ev.back, ev.text)
=============================================================================
