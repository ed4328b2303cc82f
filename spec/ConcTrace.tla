----------------------------- MODULE ConcTrace ------------------------------
EXTENDS Conc, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, s
Fam == Scens[sc].cfg.fam
Evs == Scens[sc].ev
Init == sc \in 1..Len(Scens) /\ l = 1 /\ s = Start(Scens[sc].cfg.fam)
Next == /\ l <= Len(Evs)
        /\ \E t \in Step(Fam, s, Evs[l]) : s' = t
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_<<sc, l, s>>
Report == /\ l > Len(Evs) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
