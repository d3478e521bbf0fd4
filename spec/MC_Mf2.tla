------------------------------ MODULE MC_Mf2 --------------------------------
(* texts: a context, some tokens, the end of the context; and messages built  *)
(* piece by piece, of which the valid ones read back as they are when written *)
EXTENDS Mf2, Json, IOUtils
CONSTANTS MaxTok, MaxStep
VARIABLES pre, toks, m
Ctx == {<< <<>>, <<>> >>,
        << <<123>>, <<125>> >>,                                              \* {  }
        << <<123, 36, 120, 32>>, <<125>> >>,                                 \* {$x  }
        << <<123, 124>>, <<124, 58, 102, 125>> >>,                           \* {|  |:f}
        << <<123, 58, 102, 32>>, <<125>> >>,                                 \* {:f  }
        << Local \o <<32, 36, 97>>, <<123, 123, 125, 125>> >>,               \* .local $a  {{}}
        << Input \o <<123, 36, 120>>, <<125, 123, 123, 125, 125>> >>,        \* .input{$x  }{{}}
        << Input \o <<123, 36, 120, 58, 102, 125>>, <<>> >>,                 \* .input{$x:f}
        << Input \o <<123, 36, 120, 32, 58, 102, 125>> \o Match \o <<32, 36, 120>>, <<42, 123, 123, 125, 125>> >>,
        << Input \o <<123, 36, 120, 32, 58, 102, 125>> \o Match \o <<32, 36, 120, 32, 36, 120, 32, 42, 32, 42, 123, 123, 125, 125>>, <<123, 123, 125, 125>> >>}
Tokens == {<<123>>, <<125>>, <<32>>, <<8206>>, <<92>>, <<124>>, <<49>>, <<46>>, <<36, 120>>, <<36, 121>>, <<58, 102>>, <<64, 97>>, <<35, 98>>, <<47>>, <<61>>, <<42>>, <<97>>, <<123, 123, 125, 125>>}
V(x) == [t |-> "var", s |-> <<x>>]
L(s) == [t |-> "lit", s |-> s]
O1 == {[n |-> <<111>>, v |-> V(121)]}
A1 == {[n |-> <<97>>, v |-> [t |-> "true", s |-> <<>>]], [n |-> <<98>>, v |-> L(<<>>)]}
Ex(a, f, o, at) == [t |-> "exp", arg |-> a, fn |-> f, opt |-> o, attr |-> at]
Parts == {[t |-> "txt", s |-> s] : s \in {<<>>, <<46>>, <<32>>, <<8206>>, <<123, 92>>}}
  \cup {Ex(V(120), <<>>, {}, {}), Ex(L(<<>>), <<102>>, O1, {}), Ex(NoArg, <<102, 58, 103>>, {}, A1), Ex(L(<<49, 120, 50>>), <<>>, {}, A1), Ex(L(<<45, 48, 46, 53>>), <<>>, {}, {})}
  \cup {[t |-> "mku", kind |-> k, name |-> <<98>>, opt |-> O1, attr |-> A1] : k \in {"open", "close", "standalone"}}
Decls == {[n |-> <<n>>, e |-> Ex(a, f, o, {})] : n \in {120, 121}, a \in {V(120), V(121), L(<<49>>)}, f \in {<<102>>}, o \in {{}, O1}}
  \cup {[n |-> <<121>>, e |-> Ex(V(120), <<>>, {}, {})]}
Keys == {AnyKey, [t |-> "key", s |-> <<>>], [t |-> "key", s |-> <<42>>], [t |-> "key", s |-> <<49>>]}
Pat(p) == [t |-> "pat", decl |-> <<>>, p |-> p]
Size == Len(m.decl) + (IF m.t = "pat" THEN Len(m.p) ELSE Len(m.sel) + Len(m.var))
Init == m = Pat(<<>>) /\ toks = <<>> /\ pre \in Ctx
Tok == m = Pat(<<>>) /\ Len(toks) < MaxTok /\ (\E t \in Tokens : toks' = Append(toks, t)) /\ UNCHANGED <<pre, m>>
Step == toks = <<>> /\ pre = << <<>>, <<>> >> /\ Size < MaxStep /\ UNCHANGED <<pre, toks>> /\
  \/ m.t = "pat" /\ \E p \in Parts : m' = [m EXCEPT !.p = Append(@, p)]
  \/ \E d \in Decls : d.n \notin DeclNames(m.decl) /\ m' = [m EXCEPT !.decl = Append(@, d)]
  \/ m.t = "pat" /\ m.p = <<>> /\ m.decl # <<>> /\ m' = [t |-> "sel", decl |-> m.decl, sel |-> << <<120>> >>, var |-> <<>>]
  \/ m.t = "sel" /\ m.var = <<>> /\ m' = [m EXCEPT !.sel = Append(@, <<121>>)]
  \/ m.t = "sel" /\ \E k \in [1..Len(m.sel) -> Keys] : (\A i \in 1..Len(m.var) : m.var[i].k # k) /\ m' = [m EXCEPT !.var = Append(@, [k |-> k, p |-> <<>>])]
Next == Tok \/ Step
Spec == Init /\ [][Next]_<<pre, toks, m>>
Text == pre[1] \o Concat(toks) \o pre[2]
ReadIsValid == LET r == ParseMf2(Text) IN r.ok => ValidMf2(r.v) /\ Ordered(r.v.decl) /\ LET q == ParseMf2(Write(r.v)) IN q.ok /\ q.v = r.v
WrittenReads == ValidMf2(m) /\ Ordered(m.decl) => LET q == ParseMf2(Write(m)) IN q.ok /\ q.v = NormMf2(m)
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o (IF m = Pat(<<>>) THEN ToJson([op |-> "parse", src |-> Text]) ELSE ToJson([op |-> "val", m |-> m])))
=============================================================================
