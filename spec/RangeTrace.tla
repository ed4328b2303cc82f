------------------------------ MODULE RangeTrace ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
R == INSTANCE Range WITH Props <- {IOEnv.PROP}
VARIABLES sc, l, s
vars == <<sc, l, s>>
Evs == Scens[sc].ev
Init == sc \in 1..Len(Scens) /\ l = 1 /\ s = R!C0
Next == l <= Len(Evs) /\ s' \in R!Step(s, Evs[l]) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
