----------------------------- MODULE GaRunTrace -----------------------------
(* Decides whether recorded runs of the solver are behaviours of GaRun, with the conjuncts of one property only. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, s
vars == <<sc, l, s>>
G == INSTANCE GaRun WITH Props <- {IOEnv.PROP}
Evs == Scens[sc].ev
Init == sc \in 1..Len(Scens) /\ l = 1 /\ s = G!Idle
Next == /\ l <= Len(Evs)
        /\ \E t \in G!Step(s, Evs[l]) : s' = t
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs) /\ s.ph = "idle") => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
