----------------------------- MODULE MC_Discover ----------------------------
(* Trees grow by directories and files.  The choice of reference and base is *)
(* always within the tree and never hidden; hidden things change nothing;    *)
(* the files of every locale lead back to their reference.                   *)
EXTENDS Discover, TLC, Json, IOUtils
CONSTANT MaxStep
VARIABLES dirs, files, n, hid
dEn == <<101, 110>>
enUS == <<101, 110, 45, 85, 83>>
dFr == <<102, 114>>
ptBR == <<112, 116, 95, 66, 82>>
dX == <<120>>
dH == <<46, 104>>
DirNames == {dEn, enUS, dFr, ptBR, dX, dH}
FileNames == {<<97, 46, 102, 116, 108>>, <<97, 46, 112, 111, 116>>, <<98, 46, 116, 120, 116>>}
R == <<<<114>>>>
Init == dirs = {} /\ files = {} /\ n = 0 /\ hid = FALSE
Places == {R} \cup dirs
AddDir == \E p \in Places, m \in DirNames : Len(p) < 4 /\ Append(p, m) \notin dirs /\ dirs' = dirs \cup {Append(p, m)} /\ files' = files /\ hid' = IsHidden(Append(p, m), R)
AddFile == \E p \in Places, m \in FileNames : Append(p, m) \notin files /\ files' = files \cup {Append(p, m)} /\ dirs' = dirs /\ hid' = IsHidden(Append(p, m), R)
Next == n < MaxStep /\ n' = n + 1 /\ (AddDir \/ AddFile)
Spec == Init /\ [][Next]_<<dirs, files, n, hid>>
T(d, f, ref) == [root |-> R, hasref |-> ref # <<>>, refroot |-> ref, dirs |-> d, files |-> f, srcs |-> <<enUS, dEn>>, lines |-> <<>>, force |-> {}]
RefRoots == {<<>>, R}
Sane == \A rr \in RefRoots : LET t == T(dirs, files, rr) IN \A ref \in References(t) :
          /\ Within(R, ref) /\ ~IsHidden(ref, R) /\ HasExt(t, ref, L10nExts)
          /\ \A o \in References(t) : Len(o) = Len(ref)
          /\ \A b \in Bases(t, ref) : ~Within(ref, b) /\ ~IsHidden(b, R) /\ LocaleDirs(t, b) # {}
LeadBack == \A rr \in RefRoots : LET t == T(dirs, files, rr) IN \A ref \in References(t) : \A b \in Bases(t, ref) :
          LET refs == RefFiles(t, ref) IN \A f \in refs : \A lc \in Locales(t, b) :
            LET p == TargetOf(t, ref, b, f, lc) IN f \in {g \in refs : TargetRel(ref, g) = TargetRel(ref, f)} /\ RefsOf(t, ref, b, refs, p) # {}
              /\ \A g \in RefsOf(t, ref, b, refs, p) : TargetRel(ref, g) = TargetRel(ref, f) /\ Swap(p[Len(b) + 1], Under_, Hyphen) = lc
\* a reference in the middle of nowhere is found with ref_root only
WithRefRoot == HasExt(T(dirs, files, R), R, L10nExts) <=> References(T(dirs, files, R)) # {}
HiddenChangesNothing == [][hid' => \A rr \in RefRoots : LET a == T(dirs, files, rr) b == T(dirs', files', rr) IN References(a) = References(b) /\ \A ref \in References(a) : Bases(a, ref) = Bases(b, ref) /\ RefFiles(a, ref) = RefFiles(b, ref)]_<<dirs, files, n, hid>>
\* the priority of locales goes before depth, templates before both
Priority == LET t == T(dirs, files, <<>>) IN \A ref \in References(t) : \A d \in Named(t) :
          /\ (HasExt(t, d, {PotExt}) => HasExt(t, ref, {PotExt}))
          /\ (HasExt(t, d, {PotExt}) /\ Name(d) = enUS => Name(ref) = enUS)
Emit == (IOEnv.EMIT = "1" /\ n = MaxStep) => PrintT("CASE " \o ToJson([dirs |-> dirs, files |-> files]))
=============================================================================
