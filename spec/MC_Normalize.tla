---------------------------- MODULE MC_Normalize ----------------------------
(* Every declaration graph over three names (each declared or not, each       *)
(* declaration referring to up to two names, itself included) under every     *)
(* short pattern; and every sequence of metadata edits on two keys.           *)
EXTENDS Normalize, Json, IOUtils
CONSTANTS MaxPat, MaxOps
Names == {"a", "b", "c"}
V(x) == [t |-> "var", s |-> x]
None == [t |-> "none", s |-> ""]
Ex(arg, opts) == [t |-> "exp", arg |-> arg, fn |-> "f", opt |-> opts, attr |-> <<>>]
Txt(s) == [t |-> "txt", s |-> s]
Opt(x) == <<[n |-> "o", v |-> V(x)]>>
DeclE(R) == IF R = {} THEN Ex([t |-> "lit", s |-> "1"], <<>>)
            ELSE LET x == CHOOSE y \in R : TRUE IN IF R = {x} THEN Ex(V(x), <<>>) ELSE Ex(V(x), Opt(CHOOSE y \in R : y # x))
Parts == {Txt(""), Txt("x"), Ex(V("a"), <<>>), Ex(None, Opt("b")), [t |-> "mku", kind |-> "open", name |-> "m", opt |-> Opt("c"), attr |-> <<>>]}
VARIABLES m, meta, op
vars == <<m, meta, op>>
Graphs == [Names -> {{}} \cup {{x} : x \in Names} \cup {{"a", "b"}, {"b", "c"}}]
Undeclared == {{}, {"a"}, {"b"}}
DeclSeq(g, un) == SelectSeq(<<[n |-> "c", e |-> DeclE(g["c"])], [n |-> "a", e |-> DeclE(g["a"])], [n |-> "b", e |-> DeclE(g["b"])]>>, LAMBDA d : d.n \notin un)
Init ==
  \/ /\ op = "norm" /\ meta = <<>>
     /\ \E g \in Graphs, un \in Undeclared : m = [t |-> "pat", decl |-> DeclSeq(g, un), p |-> <<>>]
  \/ op = "meta" /\ meta = <<>> /\ m = <<>>
Next ==
  \/ op = "norm" /\ Len(m.p) < MaxPat /\ \E x \in Parts : m' = [m EXCEPT !.p = Append(@, x)] /\ UNCHANGED <<meta, op>>
  \/ op = "meta" /\ UNCHANGED op /\ Len(m) < MaxOps /\ \E k \in {"k", "l"}, v \in {"1", "2"} :
       \/ meta' = Append(meta, [k |-> k, v |-> v]) /\ m' = Append(m, <<"app", k, v>>)
       \/ meta' = SetM(meta, k, v) /\ m' = Append(m, <<"set", k, v>>)
       \/ meta' = DelM(meta, k) /\ m' = Append(m, <<"del", k, v>>)
Spec == Init /\ [][Next]_vars
Idempotent == op = "norm" => LET x == Normalized(m) IN Normalized(x) = x
NothingDangles == op = "norm" =>
  LET x == Normalized(m)  kept == {x.decl[i].n : i \in 1..Len(x.decl)}  had == {m.decl[i].n : i \in 1..Len(m.decl)} IN
  /\ (Roots(x) \cup DeclRefs(x, kept)) \cap had \subseteq kept
  /\ \A n \in kept : n \in Roots(x) \/ \E i \in 1..Len(x.decl) : x.decl[i].n # n /\ n \in Refs(x.decl[i].e)
TextKept == op = "norm" => LET T(p) == FoldLeft(LAMBDA a, y : a \o (IF y.t = "txt" THEN y.s ELSE "|"), "", p) IN T(Normalized(m).p) = T(m.p)
SetGet == op = "meta" => \A k \in {"k", "l"} :
  LET s == SetM(meta, k, "9") IN s[First(s, k)].v = "9" /\ SelectSeq(s, LAMBDA y : y.k # k) = SelectSeq(meta, LAMBDA y : y.k # k)
     /\ First(DelM(meta, k), k) = 0
Emit == (IOEnv.EMIT = "1" /\ (op = "norm" \/ Len(m) = MaxOps)) => PrintT("CASE " \o ToJson([op |-> op, m |-> m]))
=============================================================================
