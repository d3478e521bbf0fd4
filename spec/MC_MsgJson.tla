----------------------------- MODULE MC_MsgJson -----------------------------
(* identifiers over an alphabet with dots and backslashes: when the key is    *)
(* unambiguous it reads back; messages built part by part: their JSON is MF2  *)
EXTENDS MsgJson, Json, IOUtils
CONSTANTS MaxId, MaxPart
VARIABLES id, m
V(x) == [t |-> "var", s |-> x]
L(x) == [t |-> "lit", s |-> x]
None == [t |-> "none", s |-> ""]
O1 == <<[n |-> "o", v |-> V("x")]>>
A1 == <<[n |-> "t", v |-> [t |-> "true", s |-> ""]]>>
A2 == <<[n |-> "t", v |-> L("")], [n |-> "u", v |-> L("y")]>>
Ex(a, f, o, at) == [t |-> "exp", arg |-> a, fn |-> f, opt |-> o, attr |-> at]
Exprs == {Ex(a, f, o, at) : a \in {V("x"), L(""), L("z")}, f \in {"", "f"}, o \in {<<>>}, at \in {<<>>, A1, A2}}
  \cup {Ex(a, "f", O1, at) : a \in {V("x"), None}, at \in {<<>>, A1}}
Parts == {[t |-> "txt", s |-> ""], [t |-> "txt", s |-> "{"]} \cup Exprs
  \cup {[t |-> "mku", kind |-> k, name |-> "b", opt |-> o, attr |-> at] : k \in {"open", "close", "standalone"}, o \in {<<>>, O1}, at \in {<<>>, A1}}
Keys == {[t |-> "key", s |-> "", name |-> ""], [t |-> "key", s |-> "one", name |-> ""], [t |-> "any", s |-> "", name |-> ""], [t |-> "any", s |-> "=other", name |-> "other"]}
Pat(p, d) == [t |-> "pat", decl |-> d, p |-> p]
D == <<[n |-> "x", e |-> Ex(V("x"), "f", <<>>, <<>>)], [n |-> "y", e |-> Ex(V("x"), "", <<>>, A1)]>>
Init == /\ id = <<>> /\ m = Pat(<<>>, <<>>)
AddId == m = Pat(<<>>, <<>>) /\ UNCHANGED m /\
  \/ Len(Concat(id)) + Len(id) < MaxId /\ \E c \in {Dot, Bsl, 97} : id # <<>> /\ id' = [id EXCEPT ![Len(id)] = Append(@, c)]
  \/ Len(Concat(id)) + Len(id) < MaxId /\ id' = Append(id, <<>>)
AddPart == id = <<>> /\ UNCHANGED id /\
  \/ m.t = "pat" /\ Len(m.p) < MaxPart /\ \E p \in Parts : m' = [m EXCEPT !.p = Append(@, p)]
  \/ m.t = "pat" /\ m.decl = <<>> /\ m' = [m EXCEPT !.decl = D]
  \/ m.t = "pat" /\ m.decl # <<>> /\ Len(m.p) <= 1 /\ \E k1, k2 \in Keys : k1 # k2 /\ m' = [t |-> "sel", decl |-> m.decl, sel |-> <<"x">>, var |-> <<[k |-> <<k1>>, p |-> m.p], [k |-> <<k2>>, p |-> <<>>]>>]
Next == AddId \/ AddPart
Spec == Init /\ [][Next]_<<id, m>>
KeyReads == id # <<>> /\ KeyUnambiguous(id) => ReadKey(KeyOf(id)) = id
IsModel == IsMf2(Mf2J(m))
IsSchema == SchMsg(MessageJ(m))
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o (IF id # <<>> THEN ToJson([op |-> "ent", id |-> id]) ELSE ToJson([op |-> "msg", m |-> m])))
=============================================================================
