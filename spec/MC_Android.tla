----------------------------- MODULE MC_Android -----------------------------
(* Messages of a few tokens: whatever they decode to can be written, and     *)
(* read back.  Documents of a few children: no comment or item is lost.      *)
EXTENDS Android, Json, IOUtils
CONSTANTS MaxTok, MaxKid
VARIABLES mode, toks
Toks == << <<97>>, <<32>>, <<10>>, <<34>>, <<92, 34>>, <<92, 92>>, <<92, 110>>, <<92, 117, 48, 48, 50, 48>>, <<37>>, <<37, 49, 36, 115>>, <<37, 60, 100>>, <<60, 112, 62>>, <<60, 98, 114, 62>>, <<60, 47, 98, 62>>, <<39>>, <<64>> >>
Kinds == <<"c1", "c2", "s", "a0", "a", "ac", "p", "pc">>
Init == toks = <<>> /\ mode \in {"msg", "doc"}
Next == /\ Len(toks) < (IF mode = "msg" THEN MaxTok ELSE MaxKid)
        /\ \E i \in 1..(IF mode = "msg" THEN Len(Toks) ELSE Len(Kinds)) : toks' = Append(toks, i)
        /\ UNCHANGED mode
Spec == Init /\ [][Next]_<<mode, toks>>
Src_ == Concat([i \in 1..Len(toks) |-> Toks[toks[i]]])
Kids(s) == IF s = <<>> THEN <<>> ELSE <<[t |-> "txt", s |-> s]>>
Got == Pattern(Kids(Src_), Default)
Again == Pattern(Kids(Encode(Got.p)), Default)
IsReference == Len(Got.p) = 1 /\ Got.p[1].t = "exp" /\ Got.p[1].fn = cReference
RoundTrip == mode = "msg" /\ ~Got.err /\ ~IsReference /\ ~RelPat(FlatPat(Got.p)) => ~Again.err /\ FlatPat(Again.p) = FlatPat(Got.p)
Exact == mode = "msg" /\ ~Got.err /\ ~IsReference /\ ~Tricky(Got.p) => Again.p = Got.p
\* no text is empty, or next to another
Merged == mode = "msg" => \A i \in 1..Len(Got.p) : Got.p[i].t = "txt" => Got.p[i].s # <<>>
\* ------------------------------------------------------------- documents
C(i) == [t |-> "com", s |-> <<32, 99, 48 + i, 32>>, nl |-> 1]
El(n, at, kids) == [t |-> "el", n |-> n, g |-> FALSE, at |-> at, kids |-> kids]
Named(i) == <<[k |-> cName, v |-> <<110, 48 + i>>]>>
It(s) == El(cItem, <<>>, Kids(s))
Q(q) == El(cItem, <<[k |-> cQuantity, v |-> q]>>, Kids(q))
Child_(i) ==
  LET k == Kinds[toks[i]] IN
  CASE k = "c1" -> C(i) [] k = "c2" -> [C(i) EXCEPT !.nl = 2]
    [] k = "s" -> El(cString, Named(i), Kids(<<97>>))
    [] k = "a0" -> El(cArray, Named(i), <<>>)
    [] k = "a" -> El(cArray, Named(i), <<It(<<97>>), C(i), It(<<98>>)>>)
    [] k = "ac" -> El(cArray, Named(i), <<C(i), It(<<97>>), C(i)>>)
    [] k = "p" -> El(cPlurals, Named(i), <<C(i), Q(cOther)>>)
    [] k = "pc" -> El(cPlurals, Named(i), <<Q(<<111, 110, 101>>), C(i), Q(cOther), C(i)>>)
Doc == [root |-> <<114, 101, 115, 111, 117, 114, 99, 101, 115>>, coms |-> <<>>, meta |-> <<>>, ents |-> <<>>, kids |-> [i \in 1..Len(toks) |-> Child_(i)]]
Dec == Decode(Doc, Default).res
AllComs == LET es == Concat([i \in 1..Len(Dec.secs) |-> Dec.secs[i].ents]) IN JoinWith([i \in 1..Len(es) |-> es[i].com], <<10>>)
Occurs(c) == Len(SelectSeq(AllComs, LAMBDA x : x = c))
ComsOf(i) == LET k == Kinds[toks[i]] IN IF k \in {"c1", "c2", "a", "p"} THEN 1 ELSE IF k \in {"ac", "pc"} THEN 2 ELSE 0
NothingLost == mode = "doc" => \A i \in 1..Len(toks) : Occurs(48 + i) = ComsOf(i)
Accepted == mode = "doc" => ~Decode(Doc, Default).err /\ ArrayOk(Rest_(Dec))
Emit == IOEnv.EMIT = "1" => PrintT("CASE " \o ToJson([mode |-> mode, s |-> IF mode = "msg" THEN Src_ ELSE <<>>, k |-> IF mode = "doc" THEN [i \in 1..Len(toks) |-> Kinds[toks[i]]] ELSE <<>>]))
=============================================================================
