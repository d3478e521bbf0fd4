----------------------------- MODULE MC_Fluent ------------------------------
(* Patterns grown from one text by turning a text into a select, or adding   *)
(* text and placeholders around: the flat message of the pattern formats as  *)
(* the pattern does, whichever the keys, and so does the pattern written     *)
(* from the flat message.                                                    *)
EXTENDS Fluent, Json, IOUtils
CONSTANTS MaxSel, Few
VARIABLE pat
Txt(s) == [t |-> "txt", s |-> s]
X == [t |-> "var", n |-> <<120>>]
Y == [t |-> "var", n |-> <<121>>]
F == [t |-> "fn", n |-> <<70>>, pos |-> <<X>>, named |-> <<>>]
Sels == IF Few THEN {X, F} ELSE {X, Y, F}
kA == <<97>>
kB == <<98>>
kOne == <<111, 110, 101>>
AllKeys == {<<[key |-> kA, def |-> FALSE], [key |-> kB, def |-> TRUE]>>, <<[key |-> kB, def |-> TRUE], [key |-> kA, def |-> FALSE]>>,
         <<[key |-> kOne, def |-> TRUE]>>, <<[key |-> kB, def |-> FALSE], [key |-> kA, def |-> TRUE]>>}
Keys == IF Few THEN {<<[key |-> kA, def |-> FALSE], [key |-> kB, def |-> TRUE]>>, <<[key |-> kB, def |-> TRUE], [key |-> kA, def |-> FALSE]>>} ELSE AllKeys
Split1(s) == {[t |-> "sel", sel |-> e, var |-> [i \in 1..Len(ks) |-> [key |-> ks[i].key, num |-> FALSE, def |-> ks[i].def, p |-> <<Txt(s \o <<48 + i>>)>>]]] : e \in Sels, ks \in Keys}
RECURSIVE Grow(_)
Grow(P) == UNION {LET put(x) == [P EXCEPT ![i] = x]
                  IN IF P[i].t = "txt" THEN {put(x) : x \in Split1(P[i].s)}
                     ELSE IF P[i].t # "sel" THEN {}
                     ELSE UNION {{put([P[i] EXCEPT !.var[j].p = q]) : q \in Grow(P[i].var[j].p)} : j \in 1..Len(P[i].var)} : i \in 1..Len(P)}
Init == pat = <<Txt(<<112>>)>>
Next == \/ Len(Sites(pat)) < MaxSel /\ pat' \in Grow(pat)
        \/ Len(pat) < 2 /\ pat' \in {<<Txt(<<113>>)>> \o pat, pat \o <<X>>}
Spec == Init /\ [][Next]_pat

\* the reference flattening
S == {SelE(x) : x \in Range(Sites(pat))}
Order == SetToSeq(S)
ColK(s) == UNION {{v.key : v \in Range(x.var)} : x \in {y \in Range(Sites(pat)) : SelE(y) = s}}
DefK(s) == LET x == Sites(pat)[SelectInSeq(Sites(pat), LAMBDA y : SelE(y) = s)] IN x.var[SelectInSeq(x.var, LAMBDA v : v.def)].key
MExp(e) == [t |-> "exp", arg |-> e.arg, fn |-> e.fn, opt |-> SetToSeq(e.opt), attr |-> SetToSeq(e.attr)]
MPart(p) == IF p.t = "txt" THEN p ELSE MExp(p.e)
Flat ==
  IF S = {} THEN [t |-> "pat", decl |-> <<>>, p |-> [i \in 1..Len(MParts(pat)) |-> MPart(MParts(pat)[i])]]
  ELSE LET cs == SetToSeq(KeyChoices(S, ColK))
       IN [t |-> "sel", decl |-> [j \in 1..Len(Order) |-> [n |-> <<118, 48 + j>>, e |-> MExp(Order[j])]], sel |-> [j \in 1..Len(Order) |-> <<118, 48 + j>>],
           var |-> [i \in 1..Len(cs) |->
                     [k |-> [j \in 1..Len(Order) |-> IF cs[i][Order[j]] = <<>> THEN [t |-> "any", s |-> <<61>> \o DefK(Order[j])] ELSE [t |-> "key", s |-> cs[i][Order[j]]]],
                      p |-> LET r == MParts(Resolve(pat, cs[i], "model")) IN [x \in 1..Len(r) |-> MPart(r[x])]]]]
\* the reference nesting of a flat message: a select per selector
ATree(p) == IF p.t = "txt" THEN p ELSE LET x == AExp(Flat.decl, p) IN IF x.t = "fn" THEN [x EXCEPT !.named = SetToSeq(@)] ELSE x
RECURSIVE Nest(_, _)
Nest(var, j) ==
  IF j > Len(Flat.sel) THEN [i \in 1..Len(var[1].p) |-> ATree(var[1].p[i])]
  ELSE LET ks == SetToSeq({[t |-> v.k[j].t, s |-> IF v.k[j].t = "any" THEN <<>> ELSE v.k[j].s] : v \in Range(var)})
           x == ASel(Flat, j)
       IN <<[t |-> "sel", sel |-> IF x.t = "fn" THEN [x EXCEPT !.named = SetToSeq(@)] ELSE x,
             var |-> [i \in 1..Len(ks) |-> [key |-> IF ks[i].t = "any" THEN <<111, 116, 104, 101, 114>> ELSE ks[i].s, num |-> FALSE, def |-> ks[i].t = "any",
                                            p |-> Nest(SelectSeq(var, LAMBDA v : SameKey(v.k[j], ks[i])), j + 1)]]]>>
Written == IF S = {} THEN [i \in 1..Len(Flat.p) |-> ATree(Flat.p[i])] ELSE Nest(Flat.var, 1)
FlatIsSame == MsgVsAst(pat, Flat) = {}
WrittenIsSame == ~MsgBad(Flat) /\ PatVs(Written, Flat) \subseteq {"default"}
\* a message differing in one variant is told apart
OneOff == S = {} \/ LET m == [Flat EXCEPT !.var[1].p = Append(@, Txt(<<33>>))] IN "variant" \in MsgVsAst(pat, m) /\ "variant" \in PatVs(Written, m)
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([pat |-> pat]))
=============================================================================
