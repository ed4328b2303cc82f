------------------------------- MODULE SpinMC -------------------------------
(* The counter-based reader/writer spinlock: every thread performs Ops operations, each chosen freely among           *)
(* exclusive, shared and try requests.                                                                               *)
EXTENDS Integers, FiniteSets
CONSTANTS T, Ops, W
VARIABLES c, pc, n
vars == <<c, pc, n>>
Init == c = 0 /\ pc = [t \in T |-> "idle"] /\ n = [t \in T |-> 0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Same == UNCHANGED <<c, n>>
Fin(t) == n' = [n EXCEPT ![t] = @ + 1] /\ Go(t, "idle")
Step(t) ==
  \/ pc[t] = "idle" /\ n[t] < Ops /\ \E p \in {"cas", "spin", "add", "try", "tryadd"} : Go(t, IF p = "spin" THEN "cas" ELSE p) /\ Same
  \/ pc[t] = "cas" /\ (IF c = 0 THEN c' = W /\ Go(t, "x") ELSE c' = c /\ Go(t, "wspin")) /\ UNCHANGED n
  \/ pc[t] = "wspin" /\ c = 0 /\ Go(t, "cas") /\ Same
  \/ pc[t] = "try" /\ (IF c = 0 THEN c' = W /\ Go(t, "x") /\ n' = n ELSE c' = c /\ Fin(t))
  \/ pc[t] = "x" /\ c' = c - W /\ Fin(t)
  \/ pc[t] = "add" /\ c' = c + 1 /\ Go(t, "sspin") /\ UNCHANGED n
  \/ pc[t] = "sspin" /\ c < W /\ Go(t, "s") /\ Same
  \/ pc[t] = "tryadd" /\ c' = c + 1 /\ Go(t, IF c < W THEN "s" ELSE "undo") /\ UNCHANGED n
  \/ pc[t] \in {"undo", "s"} /\ c' = c - 1 /\ Fin(t)
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))
Excl == \A t \in T : pc[t] = "x" => \A u \in T \ {t} : pc[u] \notin {"x", "s"}
Range == c >= 0 /\ c < 2 * W
Progress == (~ENABLED Next) => \A t \in T : pc[t] = "idle" /\ n[t] = Ops
Clean == (\A t \in T : pc[t] = "idle") => c = 0
Live == <>(\A t \in T : pc[t] = "idle" /\ n[t] = Ops)
=============================================================================
