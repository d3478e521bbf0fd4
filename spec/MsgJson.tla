------------------------------- MODULE MsgJson ------------------------------
(* C25: the JSON representations of messages and entries, and the JSON of    *)
(* the MessageFormat 2 data model.  A JSON value is                          *)
(*   [j |-> "str", s], [j |-> "arr", a], [j |-> "obj", o] (o: a sequence of  *)
(*   members [n, v]), [j |-> "lit", s] for true, false, null and numbers.    *)
EXTENDS Model, Text
JS(s) == [j |-> "str", s |-> s]
JA(a) == [j |-> "arr", a |-> a]
JO(o) == [j |-> "obj", o |-> o]
JTrue == [j |-> "lit", s |-> "true"]
Mem(n, v) == <<[n |-> n, v |-> v]>>
If(c, s) == IF c THEN s ELSE <<>>
RECURSIVE EqJ(_, _)
EqJ(a, b) ==
  /\ a.j = b.j
  /\ CASE a.j \in {"str", "lit"} -> a.s = b.s
       [] a.j = "arr" -> Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : EqJ(a.a[i], b.a[i])
       [] a.j = "obj" -> Len(a.o) = Len(b.o) /\ \A i \in 1..Len(a.o) : \E k \in 1..Len(b.o) : a.o[i].n = b.o[k].n /\ EqJ(a.o[i].v, b.o[k].v)

-------------------------------------------------------------------------------
(* The compact representation *)
OptJ(opt) == JO([i \in 1..Len(opt) |-> [n |-> opt[i].n, v |-> IF opt[i].v.t = "var" THEN JO(Mem("$", JS(opt[i].v.s))) ELSE JS(opt[i].v.s)]])
AttrJ(at) == JO([i \in 1..Len(at) |-> [n |-> at[i].n, v |-> IF at[i].v.t = "true" THEN JTrue ELSE JS(at[i].v.s)]])
ExpJ(e) == JO(
  CASE e.arg.t = "lit" -> Mem("_", JS(e.arg.s)) [] e.arg.t = "var" -> Mem("$", JS(e.arg.s)) [] OTHER -> <<>>
  )
Members(j) == j.o
ExprJ(e) == JO(Members(ExpJ(e)) \o If(e.fn # "", Mem("fn", JS(e.fn))) \o If(e.fn # "" /\ e.opt # <<>>, Mem("opt", OptJ(e.opt))) \o If(e.attr # <<>>, Mem("attr", AttrJ(e.attr))))
MkuJ(m) == JO(Mem(IF m.kind = "standalone" THEN "elem" ELSE m.kind, JS(m.name)) \o If(m.opt # <<>>, Mem("opt", OptJ(m.opt))) \o If(m.attr # <<>>, Mem("attr", AttrJ(m.attr))))
PartJ(p) == CASE p.t = "txt" -> JS(p.s) [] p.t = "exp" -> ExprJ(p) [] p.t = "mku" -> MkuJ(p)
PatJ(p) == JA([i \in 1..Len(p) |-> PartJ(p[i])])
DeclJ(d) == JO([i \in 1..Len(d) |-> [n |-> d[i].n, v |-> ExprJ(d[i].e)]])
\* a catch-all key is recorded as s = "" (no name) or "=" and its name
KeyName(k) == k.name
KeyJ(k) == IF k.t = "any" THEN JO(Mem("*", JS(k.name))) ELSE JS(k.s)
MessageJ(m) ==
  IF m.t = "pat"
  THEN IF m.decl = <<>> THEN PatJ(m.p) ELSE JO(Mem("decl", DeclJ(m.decl)) \o Mem("msg", PatJ(m.p)))
  ELSE JO(Mem("decl", DeclJ(m.decl)) \o Mem("sel", JA([i \in 1..Len(m.sel) |-> JS(m.sel[i])]))
          \o Mem("alt", JA([i \in 1..Len(m.var) |-> JO(Mem("keys", JA([k \in 1..Len(m.var[i].k) |-> KeyJ(m.var[i].k[k])])) \o Mem("pat", PatJ(m.var[i].p)))])))
EntryJ(e) == JO(
  If(e.meta # <<>>, Mem("@", JA([i \in 1..Len(e.meta) |-> JA(<<JS(e.meta[i].k), JS(e.meta[i].v)>>)])))
  \o If(e.com # "", Mem("#", JS(e.com)))
  \o If(e.props = <<>> \/ e.val.t # "pat" \/ e.val.p # <<>> \/ e.val.decl # <<>>, Mem("=", MessageJ(e.val)))
  \o If(e.props # <<>>, Mem("+", JO([i \in 1..Len(e.props) |-> [n |-> e.props[i].n, v |-> MessageJ(e.props[i].v)]]))))
\* identifiers: parts joined by dots, dots inside parts escaped (code points)
Dot == 46
Bsl == 92
EscDots(s) == FoldLeft(LAMBDA a, c : IF c = Dot THEN a \o <<Bsl, Dot>> ELSE Append(a, c), <<>>, s)
KeyOf(id) == JoinWith([i \in 1..Len(id) |-> EscDots(id[i])], <<Dot>>)
\* Reading a key: a dot after a backslash belongs to the part.  A part that ends with a backslash
\* can therefore not be told from one that continues with a dot (known finding).
ReadKey(k) ==
  LET r == FoldLeft(LAMBDA st, c :
              IF c = Dot THEN IF st.cur # <<>> /\ Last(st.cur) = Bsl
                              THEN [st EXCEPT !.cur = Append(Front(@), Dot), !.esc = TRUE]
                              ELSE [st EXCEPT !.done = Append(@, st.cur), !.cur = <<>>]
              ELSE [st EXCEPT !.cur = Append(@, c)], [done |-> <<>>, cur |-> <<>>, esc |-> FALSE], k)
  IN Append(r.done, r.cur)
KeyUnambiguous(id) == \A i \in 1..Len(id) - 1 : id[i] = <<>> \/ Last(id[i]) # Bsl

(* The published schemas of the compact representation *)
IsObj(j) == j.j = "obj"
HasM(j, n) == \E i \in 1..Len(j.o) : j.o[i].n = n
GetM(j, n) == LET i == CHOOSE k \in 1..Len(j.o) : j.o[k].n = n IN j.o[i].v
StrIf(j, n) == HasM(j, n) => GetM(j, n).j = "str"
ObjIf(j, n, P(_)) == HasM(j, n) => IsObj(GetM(j, n)) /\ \A i \in 1..Len(GetM(j, n).o) : P(GetM(j, n).o[i].v)
SchOpt(v) == v.j = "str" \/ (IsObj(v) /\ HasM(v, "$") /\ StrIf(v, "$"))
SchAttr(v) == v.j = "str" \/ v = JTrue
SchExpr(j) ==
  /\ IsObj(j) /\ StrIf(j, "_") /\ StrIf(j, "$") /\ StrIf(j, "fn") /\ ObjIf(j, "opt", SchOpt) /\ ObjIf(j, "attr", SchAttr)
  /\ (HasM(j, "_") # HasM(j, "$")) \/ HasM(j, "fn")
SchMku(j) ==
  /\ IsObj(j) /\ StrIf(j, "open") /\ StrIf(j, "close") /\ StrIf(j, "elem") /\ ObjIf(j, "opt", SchOpt) /\ ObjIf(j, "attr", SchAttr)
  /\ Cardinality({n \in {"open", "close", "elem"} : HasM(j, n)}) = 1
SchPat(j) == j.j = "arr" /\ \A i \in 1..Len(j.a) : j.a[i].j = "str" \/ (SchExpr(j.a[i]) # SchMku(j.a[i]))
SchDecl(j) == ObjIf(j, "decl", SchExpr)
SchKey(k) == k.j = "str" \/ (IsObj(k) /\ HasM(k, "*") /\ StrIf(k, "*"))
SchMsg(j) ==
  \/ SchPat(j)
  \/ /\ IsObj(j) /\ HasM(j, "decl") /\ SchDecl(j)
     /\ \/ HasM(j, "msg") /\ SchPat(GetM(j, "msg"))
        \/ /\ HasM(j, "sel") /\ GetM(j, "sel").j = "arr" /\ \A i \in 1..Len(GetM(j, "sel").a) : GetM(j, "sel").a[i].j = "str"
           /\ HasM(j, "alt") /\ GetM(j, "alt").j = "arr"
           /\ \A i \in 1..Len(GetM(j, "alt").a) : LET v == GetM(j, "alt").a[i] IN
                IsObj(v) /\ HasM(v, "keys") /\ GetM(v, "keys").j = "arr" /\ (\A k \in 1..Len(GetM(v, "keys").a) : SchKey(GetM(v, "keys").a[k]))
                /\ HasM(v, "pat") /\ SchPat(GetM(v, "pat"))
SchEntry(j) ==
  /\ IsObj(j) /\ StrIf(j, "#")
  /\ HasM(j, "@") => GetM(j, "@").j = "arr" /\ GetM(j, "@").a # <<>> /\ \A i \in 1..Len(GetM(j, "@").a) : LET m == GetM(j, "@").a[i] IN m.j = "arr" /\ Len(m.a) = 2 /\ m.a[1].j = "str" /\ m.a[2].j = "str"
  /\ HasM(j, "=") => SchMsg(GetM(j, "="))
  /\ ObjIf(j, "+", SchMsg) /\ (HasM(j, "+") => GetM(j, "+").o # <<>>)
  /\ HasM(j, "=") \/ HasM(j, "+")

-------------------------------------------------------------------------------
(* The MF2 data model *)
LitJ(s) == JO(Mem("type", JS("literal")) \o Mem("value", JS(s)))
VarJ(s) == JO(Mem("type", JS("variable")) \o Mem("name", JS(s)))
ValJ(v) == IF v.t = "var" THEN VarJ(v.s) ELSE LitJ(v.s)
Opt2(opt) == JO([i \in 1..Len(opt) |-> [n |-> opt[i].n, v |-> ValJ(opt[i].v)]])
Attr2(at) == JO([i \in 1..Len(at) |-> [n |-> at[i].n, v |-> IF at[i].v.t = "true" THEN JTrue ELSE LitJ(at[i].v.s)]])
Expr2(e) == JO(Mem("type", JS("expression")) \o If(e.arg.t # "none", Mem("arg", ValJ(e.arg)))
  \o If(e.fn # "", Mem("function", JO(Mem("type", JS("function")) \o Mem("name", JS(e.fn)) \o If(e.opt # <<>>, Mem("options", Opt2(e.opt))))))
  \o If(e.attr # <<>>, Mem("attributes", Attr2(e.attr))))
Mku2(m) == JO(Mem("type", JS("markup")) \o Mem("kind", JS(m.kind)) \o Mem("name", JS(m.name)) \o If(m.opt # <<>>, Mem("options", Opt2(m.opt))) \o If(m.attr # <<>>, Mem("attributes", Attr2(m.attr))))
Part2(p) == CASE p.t = "txt" -> JS(p.s) [] p.t = "exp" -> Expr2(p) [] p.t = "mku" -> Mku2(p)
Pat2(p) == JA([i \in 1..Len(p) |-> Part2(p[i])])
Decl2(d) == JO(Mem("type", JS(IF d.e.arg.t = "var" /\ d.e.arg.s = d.n THEN "input" ELSE "local")) \o Mem("name", JS(d.n)) \o Mem("value", Expr2(d.e)))
Decls2(m) == JA([i \in 1..Len(m.decl) |-> Decl2(m.decl[i])])
Key2(k) == IF k.t = "any" THEN JO(Mem("type", JS("*")) \o If(k.s # "", Mem("value", JS(k.name)))) ELSE LitJ(k.s)
Mf2J(m) ==
  IF m.t = "pat" THEN JO(Mem("type", JS("message")) \o Mem("declarations", Decls2(m)) \o Mem("pattern", Pat2(m.p)))
  ELSE JO(Mem("type", JS("select")) \o Mem("declarations", Decls2(m)) \o Mem("selectors", JA([i \in 1..Len(m.sel) |-> VarJ(m.sel[i])]))
          \o Mem("variants", JA([i \in 1..Len(m.var) |-> JO(Mem("keys", JA([k \in 1..Len(m.var[i].k) |-> Key2(m.var[i].k[k])])) \o Mem("value", Pat2(m.var[i].p)))])))

(* Which JSON values are MF2 data model messages, and which message each is *)
Has(j, n) == j.j = "obj" /\ \E i \in 1..Len(j.o) : j.o[i].n = n
Get(j, n) == LET i == CHOOSE k \in 1..Len(j.o) : j.o[k].n = n IN j.o[i].v
IsStr(j) == j.j = "str"
HasStr(j, n) == Has(j, n) /\ IsStr(Get(j, n))
Typed(j, t) == HasStr(j, "type") /\ Get(j, "type").s = t
Null == [j |-> "lit", s |-> "null"]
IsLit2(j) == Typed(j, "literal") /\ HasStr(j, "value")
IsVar2(j) == Typed(j, "variable") /\ HasStr(j, "name")
IsVal2(j) == IsLit2(j) \/ IsVar2(j)
OptsOk(j) == Has(j, "options") => LET o == Get(j, "options") IN o.j = "obj" /\ \A i \in 1..Len(o.o) : IsVal2(o.o[i].v)
AttrsOk(j) == Has(j, "attributes") => LET o == Get(j, "attributes") IN o.j = "obj" /\ \A i \in 1..Len(o.o) : o.o[i].v = JTrue \/ IsLit2(o.o[i].v)
\* a null function counts as none
HasFn(j) == Has(j, "function") /\ Get(j, "function") # Null
IsExpr2(j) ==
  /\ Typed(j, "expression")
  /\ Has(j, "arg") => IsVal2(Get(j, "arg"))
  /\ HasFn(j) => LET f == Get(j, "function") IN Typed(f, "function") /\ HasStr(f, "name") /\ OptsOk(f)
  /\ Has(j, "arg") \/ HasFn(j)
  /\ AttrsOk(j)
IsMku2(j) == Typed(j, "markup") /\ HasStr(j, "kind") /\ Get(j, "kind").s \in {"open", "standalone", "close"} /\ HasStr(j, "name") /\ OptsOk(j) /\ AttrsOk(j)
IsArr(j, n) == Has(j, n) /\ Get(j, n).j = "arr"
IsPat2(j) == \A i \in 1..Len(j.a) : IsStr(j.a[i]) \/ IsExpr2(j.a[i]) \/ IsMku2(j.a[i])
IsDecl2(j) ==
  /\ Typed(j, "input") \/ Typed(j, "local")
  /\ HasStr(j, "name") /\ Has(j, "value") /\ IsExpr2(Get(j, "value"))
  /\ Typed(j, "input") => LET v == Get(j, "value") IN Has(v, "arg") /\ IsVar2(Get(v, "arg")) /\ Get(Get(v, "arg"), "name") = Get(j, "name")
IsKey2(j) == IsLit2(j) \/ (Typed(j, "*") /\ (Has(j, "value") => HasStr(j, "value")))
IsMf2(j) ==
  /\ Typed(j, "message") \/ Typed(j, "select")
  /\ IsArr(j, "declarations") /\ \A i \in 1..Len(Get(j, "declarations").a) : IsDecl2(Get(j, "declarations").a[i])
  /\ LET d == Get(j, "declarations").a IN \A i, k \in 1..Len(d) : i # k => Get(d[i], "name") # Get(d[k], "name")
  /\ IF Typed(j, "message") THEN IsArr(j, "pattern") /\ IsPat2(Get(j, "pattern"))
     ELSE /\ IsArr(j, "selectors") /\ \A i \in 1..Len(Get(j, "selectors").a) : IsVar2(Get(j, "selectors").a[i])
          /\ IsArr(j, "variants")
          /\ \A i \in 1..Len(Get(j, "variants").a) : LET v == Get(j, "variants").a[i] IN
               IsArr(v, "keys") /\ IsArr(v, "value") /\ IsPat2(Get(v, "value")) /\ \A k \in 1..Len(Get(v, "keys").a) : IsKey2(Get(v, "keys").a[k])

-------------------------------------------------------------------------------
\* the same message, catch-all names included
SameMsg(a, b) ==
  /\ EqMsg(a, b)
  /\ a.t = "sel" => \A i \in 1..Len(a.var) : \E k \in 1..Len(b.var) : a.var[i].k = b.var[k].k
SameEntry(a, b) ==
  /\ a.id = b.id /\ a.com = b.com /\ a.meta = b.meta /\ SameMsg(a.val, b.val)
  /\ EqProps(a.props, b.props) /\ \A i \in 1..Len(a.props) : \E k \in 1..Len(b.props) : a.props[i].n = b.props[k].n /\ SameMsg(a.props[i].v, b.props[k].v)
If1(c, n) == IF c THEN {} ELSE {n}
JsonVerdict(ev) ==
  IF ev.op = "bad"
  THEN IF IsMf2(ev.json) THEN If1(ev.out.k = "ok", "valid_json_rejected")
       ELSE IF ev.out.k = "ok" THEN {"invalid_json_accepted"} ELSE If1(ev.out.type = "MF2ValidationError", "wrong_error")
  ELSE IF ev.raised THEN {"raised"}
  ELSE
  CASE ev.op = "msg" -> If1(SchMsg(ev.json), "schema") \cup If1(EqJ(ev.json, MessageJ(ev.msg)), "json") \cup If1(SameMsg(ev.back, ev.msg), "round_trip") \cup If1(ev.after = ev.msg, "modified")
    [] ev.op = "mf2" -> If1(EqJ(ev.json, Mf2J(ev.msg)), "json") \cup If1(SameMsg(ev.back, ev.msg), "round_trip") \cup If1(ev.after = ev.msg, "modified") \cup If1(IsMf2(ev.json), "model_json")
    [] ev.op = "ent" -> If1(SchEntry(ev.json), "schema") \cup If1(EqJ(ev.json, EntryJ(ev.ent)), "json") \cup If1(ev.key = KeyOf(ev.idc), "key")
         \cup If1(SameEntry(ev.back, ev.ent), "round_trip") \cup If1(ev.after = ev.ent, "modified")
    [] ev.op = "key" -> If1(ev.idc = ReadKey(ev.key), "read_key")
=============================================================================
