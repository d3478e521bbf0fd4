----------------------------- MODULE Properties -----------------------------
(* C15: .properties text.  Text, keys, values and comments are sequences of   *)
(* code points.  Parse(text) follows the line structure: natural lines, of    *)
(* which some continue the one before, are comments, blank, or hold a key     *)
(* and a value.                                                               *)
EXTENDS Text
NL == 10
CR == 13
BS == 92
Mark == -2      \* joins the natural lines of a logical line
Ws == {9, 12, 32}
Sep == {58, 61}
(* Natural lines, without their terminators *)
Lines(t) ==
  LET r == FoldLeft(LAMBDA st, c :
        CASE c = NL /\ st.cr -> [st EXCEPT !.cr = FALSE]
          [] c = NL \/ c = CR -> [done |-> Append(st.done, st.cur), cur |-> <<>>, cr |-> c = CR]
          [] OTHER -> [st EXCEPT !.cur = Append(@, c), !.cr = FALSE],
        [done |-> <<>>, cur |-> <<>>, cr |-> FALSE], t)
  IN Append(r.done, r.cur)
TrailingBackslashes(s) == Len(s) - SelectLastInSeq(s, LAMBDA c : c # BS)
Continued(s) == TrailingBackslashes(s) % 2 = 1
IsBlank(s) == \A i \in 1..Len(s) : s[i] \in Ws
IsComment(s) == LET t == TrimLeft(s, Ws) IN t # <<>> /\ t[1] \in {35, 33}
CommentText(s) == LET t == Tail(TrimLeft(s, Ws)) IN IF t # <<>> /\ t[1] = 32 THEN Tail(t) ELSE t

(* Escapes; they do not reach over a line end *)
HexRun(s, i) == LET f[k \in 0..4] == IF k = 0 THEN TRUE ELSE f[k-1] /\ At(s, i + k - 1) \in HexDigit
                IN CHOOSE k \in 0..4 : f[k] /\ (k = 4 \/ ~f[k+1])
HexNum(s) == FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, s)
Esc1(c) == CASE c = 116 -> 9 [] c = 110 -> 10 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> c
\* [st: what the next character continues, out: decoded code points]; a backslash without a character stays
Decode1(s) ==
  LET r == FoldLeft(LAMBDA st, i :
        IF i < st.next THEN st
        ELSE IF s[i] # BS \/ i = Len(s) THEN [next |-> i + 1, out |-> Append(st.out, s[i])]
        ELSE IF s[i+1] = 117 /\ HexRun(s, i + 2) > 0
             THEN LET k == HexRun(s, i + 2) IN [next |-> i + 2 + k, out |-> Append(st.out, HexNum(SubSeq(s, i + 2, i + 1 + k)))]
        ELSE [next |-> i + 2, out |-> Append(st.out, Esc1(s[i+1]))],
      [next |-> 1, out |-> <<>>], [i \in 1..Len(s) |-> i])
  IN r.out
\* Two escaped surrogates are one character.  Text holds no surrogates of its own.
Pairs(s) == FoldLeft(LAMBDA a, c : IF a # <<>> /\ Last(a) \in 55296..56319 /\ c \in 56320..57343
                                   THEN Append(Front(a), 65536 + (Last(a) - 55296) * 1024 + (c - 56320)) ELSE Append(a, c), <<>>, s)
Decode(s) == Concat([i \in 1..Len(Split(s, Mark)) |-> Pairs(Decode1(Split(s, Mark)[i]))])

(* A logical line: key, separator, value *)
KeyEnd(s) ==  \* the number of characters of the key
  LET r == FoldLeft(LAMBDA st, i :
        IF st.end >= 0 THEN st
        ELSE IF st.esc THEN [st EXCEPT !.esc = FALSE]
        ELSE IF s[i] = BS THEN [st EXCEPT !.esc = TRUE]
        ELSE IF s[i] \in Ws \cup Sep THEN [st EXCEPT !.end = i - 1] ELSE st,
      [end |-> -1, esc |-> FALSE], [i \in 1..Len(s) |-> i])
  IN IF r.end >= 0 THEN r.end ELSE Len(s)
Marks(s) == Cardinality({i \in 1..Len(s) : s[i] = Mark})
SplitKV(s) ==
  LET k == KeyEnd(s)
      s1 == TrimLeft(From(s, k + 1), Ws \cup {Mark})
      s2 == IF s1 # <<>> /\ s1[1] \in Sep THEN Tail(s1) ELSE s1
      v == TrimLeft(s2, Ws)
      before == SubSeq(s, 1, Len(s) - Len(v))
  IN [key |-> Decode(SubSeq(s, 1, k)), val |-> Decode(v), vline |-> Marks(before), empty |-> v = <<>>]

(* The whole file *)
None == [t |-> "none"]
Parse(text) ==
  LET ls == Lines(text)
      n == Len(ls)
      Flush(st) == IF st.com = <<>> THEN [st EXCEPT !.start = 0]
                   ELSE [st EXCEPT !.items = Append(@, [t |-> "com", com |-> st.com, lp |-> <<st.start, st.start, st.start, st.last>>]), !.com = <<>>, !.start = 0]
      EntryOf(st, end) ==
        LET kv == SplitKV(st.cur)
            vl == IF kv.empty THEN st.key ELSE st.key + kv.vline
        IN [t |-> "ent", key |-> kv.key, val |-> kv.val, com |-> st.com, lp |-> <<IF st.start > 0 THEN st.start ELSE st.key, st.key, vl, end>>]
      Body(l, cont) == IF cont THEN Front(l) ELSE l
      r == FoldLeft(LAMBDA st, i :
             LET l == ls[i] IN
             IF st.in
             THEN LET cur == st.cur \o <<Mark>> \o Body(TrimLeft(l, Ws), Continued(l) /\ i < n) IN
                  IF Continued(l) /\ i < n THEN [st EXCEPT !.cur = cur]
                  ELSE LET e == [st EXCEPT !.cur = cur] IN
                       [st EXCEPT !.items = Append(@, EntryOf(e, i + 1)), !.in = FALSE, !.cur = <<>>, !.com = <<>>, !.start = 0]
             ELSE IF IsBlank(l) THEN Flush(st)
             ELSE IF IsComment(l)
             THEN IF st.com = <<>> THEN [st EXCEPT !.com = CommentText(l), !.start = i, !.last = i + 1]
                  ELSE [st EXCEPT !.com = @ \o <<NL>> \o CommentText(l), !.last = i + 1]
             ELSE LET c == Continued(l) /\ i < n
                      e == [st EXCEPT !.cur = Body(TrimLeft(l, Ws), c), !.key = i]
                  IN IF c THEN [e EXCEPT !.in = TRUE]
                     ELSE [e EXCEPT !.items = Append(@, EntryOf(e, i + 1)), !.cur = <<>>, !.com = <<>>, !.start = 0],
             [items |-> <<>>, com |-> <<>>, start |-> 0, last |-> 0, in |-> FALSE, cur |-> <<>>, key |-> 0],
             [i \in 1..n |-> i])
  IN Flush(r).items
\* an initial standalone comment is the resource's
ResCom(items) == IF items # <<>> /\ items[1].t = "com" THEN items[1].com ELSE <<>>
Body(items) == IF items # <<>> /\ items[1].t = "com" THEN Tail(items) ELSE items

-------------------------------------------------------------------------------
(* What a resource says, for serialization: its comments without outer blank  *)
(* lines and trailing spaces of lines.                                        *)
NormCom(c) ==
  LET ls == [i \in 1..Len(Lines(c)) |-> TrimRight(Lines(c)[i], PyWhite)]
      a == SelectInSeq(ls, LAMBDA l : l # <<>>)
      b == SelectLastInSeq(ls, LAMBDA l : l # <<>>)
  IN IF a = 0 THEN <<>> ELSE JoinWith(SubSeq(ls, a, b), <<NL>>)
Stand(c) == IF NormCom(c) = <<>> THEN <<>> ELSE <<[t |-> "com", com |-> NormCom(c)]>>
Expect(res) ==
  Stand(res.com) \o Concat([i \in 1..Len(res.secs) |->
    LET s == res.secs[i] IN Stand(s.com) \o Concat([k \in 1..Len(s.ents) |->
      LET e == s.ents[k] IN IF e.t = "com" THEN Stand(e.com)
        ELSE <<[t |-> "ent", key |-> JoinWith(s.id \o e.id, <<46>>), val |-> e.val, com |-> NormCom(e.com)]>>])])
Says(text) == LET p == Parse(text) IN Concat([i \in 1..Len(p) |->
   IF p[i].t = "com" THEN Stand(p[i].com) ELSE <<[t |-> "ent", key |-> p[i].key, val |-> p[i].val, com |-> NormCom(p[i].com)]>>])
HasMeta(res) == res.meta \/ \E i \in 1..Len(res.secs) : res.secs[i].meta \/ \E k \in 1..Len(res.secs[i].ents) : res.secs[i].ents[k].t = "ent" /\ res.secs[i].ents[k].meta

(* A message's source *)
MessageOf(src) ==
  LET ls == Lines(src)
      j == SelectInSeq([i \in 1..Len(ls) |-> i], LAMBDA i : i = Len(ls) \/ ~Continued(ls[i]))
      raw == JoinWith([i \in 1..j |-> LET b == IF i < j THEN Front(ls[i]) ELSE ls[i] IN TrimLeft(b, Ws)], <<Mark>>)
      rest == \A i \in j + 1..Len(ls) : IsBlank(ls[i])
  IN IF src = <<>> THEN [ok |-> TRUE, val |-> <<>>] ELSE IF IsBlank(ls[1]) \/ ~rest THEN [ok |-> FALSE, val |-> <<>>] ELSE [ok |-> TRUE, val |-> Decode(raw)]

-------------------------------------------------------------------------------
If1(c, n) == IF c THEN {} ELSE {n}
Strip2(items) == [i \in 1..Len(items) |-> IF items[i].t = "com" THEN [t |-> "com", com |-> items[i].com] ELSE [t |-> "ent", key |-> items[i].key, val |-> items[i].val, com |-> items[i].com]]
Lps(items) == [i \in 1..Len(items) |-> items[i].lp]
PropertiesVerdict(ev) ==
  IF ev.raised THEN IF ev.op = "msg" THEN If1(~MessageOf(ev.text).ok /\ ev.ve, "message_rejected")
                    ELSE IF ev.op = "ser" /\ HasMeta(ev.res) THEN If1(ev.ve, "wrong_error") ELSE {"raised"}
  ELSE CASE ev.op = "parse" ->
              LET p == Parse(ev.text) IN
              If1(Strip2(ev.items) = Strip2(Body(p)), "content") \cup If1(ev.com = ResCom(p), "resource_comment")
              \cup If1(Len(ev.items) = Len(Body(p)) => Lps(ev.items) = Lps(Body(p)), "line_positions")
              \cup If1(ev.shape, "shape")
         [] ev.op = "ser" ->
              If1(Says(ev.text) = Expect(ev.res), "content") \cup If1(ev.reparsed = Expect(ev.res), "reparsed")
              \cup If1(ev.ascii => \A i \in 1..Len(ev.text) : ev.text[i] < 128, "not_ascii") \cup If1(~HasMeta(ev.res), "metadata_dropped")
         [] ev.op = "msg" -> LET m == MessageOf(ev.text) IN If1(m.ok, "message_accepted") \cup If1(ev.val = m.val, "message")
         [] ev.op = "msgser" -> If1(MessageOf(ev.text) = [ok |-> TRUE, val |-> ev.val], "message_text") \cup If1(ev.back = ev.val, "message_back") \cup If1(ev.ascii => \A i \in 1..Len(ev.text) : ev.text[i] < 128, "not_ascii")
=============================================================================
