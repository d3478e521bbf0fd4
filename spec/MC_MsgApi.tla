------------------------------ MODULE MC_MsgApi -------------------------------
(* Texts grow by a token at a time; options are switched on one by one.      *)
EXTENDS MsgApi, TLC, Json, IOUtils
CONSTANTS MaxToks
VARIABLES fmt, toks, opts
\* x  space  %s  $P$  {$x}  {  <b>  </b>  &lt;  \u00e9  \  "  newline
Toks == {<<120>>, <<32>>, <<37, 115>>, <<36, 80, 36>>, <<123, 36, 120, 125>>, <<123>>, <<60, 98, 62>>, <<60, 47, 98, 62>>, <<38, 108, 116, 59>>, <<92, 117, 48, 48, 101, 57>>, <<92>>, <<34>>, <<10>>, <<8195>>}
Opts == {"ascii", "printf", "ph", "xcode"}
Init == fmt \in Formats /\ toks = <<>> /\ opts \in {{}} \cup {{o} : o \in About(fmt)} \cup {Opts}
Next == Len(toks) < MaxToks /\ \E t \in Toks : toks' = Append(toks, t) /\ UNCHANGED <<fmt, opts>>
Spec == Init /\ [][Next]_<<fmt, toks, opts>>
S == Concat(toks)
\* taken as it is, it is written as it is
Kept_ == Text_(AsIs(S)) = <<S>>
\* adding text adds text
Grows == toks # <<>> => LET n == Len(toks) a == AsIs(Concat(SubSeq(toks, 1, n - 1))) IN NormVal([a EXCEPT !.p = Append(@, Txt(toks[n]))]) = AsIs(S)
\* normal forms are stable
Stable == NormVal(NormVal(AsIs(S))) = AsIs(S)
Emit == IOEnv.EMIT = "1" => PrintT("CASE " \o ToJson([fmt |-> fmt, toks |-> toks, opts |-> opts]))
=============================================================================
