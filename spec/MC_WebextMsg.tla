---------------------------- MODULE MC_WebextMsg ----------------------------
(* Every message of up to MaxLen characters: what its tokens render to has   *)
(* the same tokens, unless a placeholder follows text ending in $; text      *)
(* without $ is kept, and any text alone can be written.                     *)
EXTENDS JsonFormats, Json, IOUtils
CONSTANTS MaxLen
VARIABLE text
Chars == {36, 49, 48, 97, 65, 64, 32}
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c)
Spec == Init /\ [][Next]_text
Toks == MsgTokens(text)
NoMsgLoss == MsgTokens(Render(Toks)) = Toks
Literal == \/ \E i \in 1..Len(text) : text[i] = D
           \/ Toks = IF text = <<>> THEN <<>> ELSE <<[t |-> "txt", s |-> text]>>
AnyText == text # <<>> => MsgTokens(Render(<<[t |-> "txt", s |-> text]>>)) = <<[t |-> "txt", s |-> text]>>
Dollars(s) == Len(SelectSeq(s, LAMBDA c : c = D))
\* no character but dollars and placeholder names is lost
Kept == SelectSeq(Concat([i \in 1..Len(Toks) |-> Toks[i].s]), LAMBDA c : c # D) = SelectSeq(text, LAMBDA c : c # D)
Emit == (IOEnv.EMIT = "1") => PrintT("CASE " \o ToJson([k |-> "msg", text |-> text]))
=============================================================================
