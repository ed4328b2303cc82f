------------------------------ MODULE ProgGen -------------------------------
(* Enumerates the client programs of up to MaxT threads with up to MaxO operations each that are run on the real     *)
(* synchronisation types under many schedules (one per set of equal threads).  A final state is one program.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Fam, MaxT, MaxO, MaxAll
Alpha == CASE Fam = "queue" -> <<"put", "take", "close">>
           [] Fam = "lock" -> <<"lock", "try", "slock", "stry">>
           [] Fam = "rcu" -> <<"sec_0_0", "upd_0", "sync">>
VARIABLES prog
\* threads are coded as numbers so that programs that differ in the order of the threads only are generated once
RECURSIVE Code(_)
Code(t) == IF t = <<>> THEN 0 ELSE Code(SubSeq(t, 1, Len(t) - 1)) * (Len(Alpha) + 1) + t[Len(t)]
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE Len(p[1]) + Total(Tail(p))
Threads == UNION {[1..k -> 1..Len(Alpha)] : k \in 1..MaxO}
Init == prog = <<>>
Next == /\ Len(prog) < MaxT
        /\ \E t \in Threads : /\ prog # <<>> => Code(prog[Len(prog)]) <= Code(t)
                              /\ Total(prog) + Len(t) <= MaxAll
                              /\ prog' = Append(prog, t)
Spec == Init /\ [][Next]_prog
Words == [i \in DOMAIN prog |-> [j \in DOMAIN prog[i] |-> Alpha[prog[i][j]]]]
Emit == (Len(prog) >= 2 /\ IOEnv.GEN = "1") => PrintT(<<"GEN", ToJson(Words)>>)
=============================================================================
