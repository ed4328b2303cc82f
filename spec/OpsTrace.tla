----------------------------- MODULE OpsTrace ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, s
vars == <<sc, l, s>>
H == INSTANCE Ops WITH Props <- {IOEnv.PROP}
Evs == Scens[sc].ev
Init == sc \in 1..Len(Scens) /\ l = 1 /\ s = H!Idle
Next == /\ l <= Len(Evs)
        /\ \E t \in H!Step(s, Evs[l]) : s' = t
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs) /\ s.ph = "idle") => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
