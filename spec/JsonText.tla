------------------------------ MODULE JsonText ------------------------------
(* JSON on code points, optionally with line comments outside strings:      *)
(* tokens by a fold over characters, values by recursion over tokens.       *)
(* Members keep the place of their first occurrence and their last value.   *)
EXTENDS Text
LitChars == Digit \cup Alpha \cup {43, 45, 46}
Ws == {9, 10, 13, 32}
Pun == {123, 125, 91, 93, 58, 44} \* { } [ ] : ,
\* escapes other than u
Simple == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
J0 == [m |-> "n", ok |-> TRUE, com |-> FALSE, toks |-> <<>>, cur |-> <<>>, n |-> 0, acc |-> 0, hi |-> 0]
Normal(s, c) ==
  LET t == IF s.m = "l" THEN [s EXCEPT !.toks = Append(@, [t |-> "lit", v |-> s.cur]), !.m = "n", !.cur = <<>>] ELSE s IN
  CASE c \in Ws -> t
    [] c \in Pun -> [t EXCEPT !.toks = Append(@, [t |-> "pun", v |-> <<c>>])]
    [] c = 34 -> [t EXCEPT !.m = "s", !.cur = <<>>, !.hi = 0]
    [] c = 47 -> [t EXCEPT !.m = "/"]
    [] OTHER -> [t EXCEPT !.ok = FALSE]
HiSur(c) == c \in 55296..56319
LoSur(c) == c \in 56320..57343
Char(s, c) ==
  CASE ~s.ok -> s
    [] s.m = "c" -> IF c = 10 THEN [s EXCEPT !.m = "n"] ELSE s
    [] s.m = "/" -> IF c = 47 THEN [s EXCEPT !.m = "c", !.com = TRUE] ELSE [s EXCEPT !.ok = FALSE]
    [] s.m = "s" /\ c = 34 -> [s EXCEPT !.m = "n", !.toks = Append(@, [t |-> "str", v |-> s.cur]), !.cur = <<>>]
    [] s.m = "s" /\ c = 92 -> [s EXCEPT !.m = "e"]
    [] s.m = "s" -> IF c < 32 THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.cur = Append(@, c), !.hi = 0]
    [] s.m = "e" -> IF c = 117 THEN [s EXCEPT !.m = "u", !.n = 0, !.acc = 0]
                    ELSE IF c \in DOMAIN Simple THEN [s EXCEPT !.m = "s", !.cur = Append(@, Simple[c]), !.hi = 0] ELSE [s EXCEPT !.ok = FALSE]
    [] s.m = "u" -> IF c \notin HexDigit THEN [s EXCEPT !.ok = FALSE]
                    ELSE LET a == s.acc * 16 + HexVal(c) IN
                      IF s.n < 3 THEN [s EXCEPT !.n = @ + 1, !.acc = a]
                      ELSE IF s.hi # 0 /\ LoSur(a) THEN [s EXCEPT !.m = "s", !.cur[Len(s.cur)] = 65536 + (s.hi - 55296) * 1024 + (a - 56320), !.hi = 0]
                      ELSE [s EXCEPT !.m = "s", !.cur = Append(@, a), !.hi = IF HiSur(a) THEN a ELSE 0]
    [] s.m = "l" /\ c \in LitChars -> [s EXCEPT !.cur = Append(@, c)]
    [] s.m = "n" /\ c \in LitChars -> [s EXCEPT !.m = "l", !.cur = <<c>>]
    [] OTHER -> Normal(s, c)
Tokens(s) == LET r == FoldLeft(Char, J0, s) IN
  IF r.m = "l" THEN [r EXCEPT !.toks = Append(@, [t |-> "lit", v |-> r.cur]), !.m = "n"] ELSE [r EXCEPT !.ok = @ /\ r.m \in {"n", "c"}]
Is(toks, i, c) == i <= Len(toks) /\ toks[i] = [t |-> "pun", v |-> <<c>>]
IsStr(toks, i) == i <= Len(toks) /\ toks[i].t = "str"
No == [ok |-> FALSE, v |-> [t |-> "none"], next |-> 0]
Put(m, k, v) == LET i == SelectInSeq(m, LAMBDA f : f.k = k) IN IF i = 0 THEN Append(m, [k |-> k, v |-> v]) ELSE [m EXCEPT ![i].v = v]
RECURSIVE Value(_, _), Members(_, _, _), Elements(_, _, _)
Value(toks, i) ==
  CASE IsStr(toks, i) -> [ok |-> TRUE, v |-> [t |-> "str", s |-> toks[i].v], next |-> i + 1]
    [] Is(toks, i, 123) -> IF Is(toks, i + 1, 125) THEN [ok |-> TRUE, v |-> [t |-> "obj", m |-> <<>>], next |-> i + 2] ELSE Members(toks, i + 1, <<>>)
    [] Is(toks, i, 91) -> IF Is(toks, i + 1, 93) THEN [ok |-> TRUE, v |-> [t |-> "arr", n |-> 0], next |-> i + 2] ELSE Elements(toks, i + 1, 0)
    [] i <= Len(toks) /\ toks[i].t = "lit" -> [ok |-> TRUE, v |-> [t |-> "lit", s |-> toks[i].v], next |-> i + 1]
    [] OTHER -> No
Members(toks, i, m) ==
  IF ~IsStr(toks, i) \/ ~Is(toks, i + 1, 58) THEN No
  ELSE LET x == Value(toks, i + 2) IN
    IF ~x.ok THEN No
    ELSE LET m2 == Put(m, toks[i].v, x.v) IN
      IF Is(toks, x.next, 125) THEN [ok |-> TRUE, v |-> [t |-> "obj", m |-> m2], next |-> x.next + 1]
      ELSE IF Is(toks, x.next, 44) THEN Members(toks, x.next + 1, m2) ELSE No
Elements(toks, i, n) ==
  LET x == Value(toks, i) IN
  IF ~x.ok THEN No
  ELSE IF Is(toks, x.next, 93) THEN [ok |-> TRUE, v |-> [t |-> "arr", n |-> n + 1], next |-> x.next + 1]
  ELSE IF Is(toks, x.next, 44) THEN Elements(toks, x.next + 1, n + 1) ELSE No
\* known: what other literals are is not said here
KnownLit(v) == v \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>, <<48>>} \/ (v # <<>> /\ v[1] \in 49..57 /\ All(v, LAMBDA c : c \in Digit))
IsNull(v) == v.t = "lit" /\ v.s = <<110, 117, 108, 108>>
ParseJson(s, comments) ==
  LET r == Tokens(s)
      x == Value(r.toks, 1)
  IN [known |-> \A i \in 1..Len(r.toks) : r.toks[i].t # "lit" \/ KnownLit(r.toks[i].v),
      com |-> r.com, ok |-> r.ok /\ (comments \/ ~r.com) /\ x.ok /\ x.next = Len(r.toks) + 1, v |-> x.v]
Has(o, k) == \E i \in 1..Len(o.m) : o.m[i].k = k
Get(o, k) == LET i == SelectInSeq(o.m, LAMBDA f : f.k = k) IN o.m[i].v
\* the strings at the leaves, by path; "bad" stands for any other leaf
RECURSIVE Leaves(_, _)
Leaves(path, o) == Concat([i \in 1..Len(o.m) |->
  LET p == Append(path, o.m[i].k) v == o.m[i].v IN
  IF v.t = "str" THEN <<[p |-> p, v |-> v.s, ok |-> TRUE]>> ELSE IF v.t = "obj" THEN Leaves(p, v) ELSE <<[p |-> p, v |-> <<>>, ok |-> FALSE]>>])
=============================================================================
