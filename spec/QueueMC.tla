------------------------------ MODULE QueueMC -------------------------------
(* The work queue as a monitor: a mutex, a condition variable with spurious wake-ups, a sequence and a flag.          *)
(* Every thread performs Ops operations chosen freely among put, take and close.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, Ops
VARIABLES m, q, closed, wait, pc, n, put, got, k
vars == <<m, q, closed, wait, pc, n, put, got, k>>
None == "none"
Init == /\ m = None /\ q = <<>> /\ closed = FALSE /\ wait = {} /\ pc = [t \in T |-> "idle"] /\ n = [t \in T |-> 0]
        /\ put = <<>> /\ got = <<>> /\ k = 1
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Fin(t) == Go(t, "idle") /\ n' = [n EXCEPT ![t] = @ + 1] /\ m' = None
Step(t) ==
  \/ pc[t] = "idle" /\ n[t] < Ops /\ m = None /\ m' = t /\ \E p \in {"put", "take", "close"} : Go(t, p) /\ UNCHANGED <<q, closed, wait, n, put, got, k>>
  \/ pc[t] = "put" /\ m = t /\ IF closed THEN Fin(t) /\ UNCHANGED <<q, closed, wait, put, got, k>>
                               ELSE /\ q' = Append(q, k) /\ put' = Append(put, k) /\ k' = k + 1 /\ Fin(t) /\ UNCHANGED <<closed, got>>
                                    /\ IF wait = {} THEN wait' = wait ELSE \E w \in wait : wait' = wait \ {w}
  \/ pc[t] = "take" /\ m = t /\ IF q # <<>> THEN q' = Tail(q) /\ got' = Append(got, Head(q)) /\ Fin(t) /\ UNCHANGED <<closed, wait, put, k>>
                                ELSE IF closed THEN Fin(t) /\ UNCHANGED <<q, closed, wait, put, got, k>>
                                ELSE wait' = wait \cup {t} /\ m' = None /\ Go(t, "wait") /\ UNCHANGED <<q, closed, n, put, got, k>>
  \/ pc[t] = "wait" /\ t \notin wait /\ m = None /\ m' = t /\ Go(t, "take") /\ UNCHANGED <<q, closed, wait, n, put, got, k>>
  \/ pc[t] = "close" /\ m = t /\ closed' = TRUE /\ wait' = {} /\ Fin(t) /\ UNCHANGED <<q, put, got, k>>
Spurious(t) == pc[t] = "wait" /\ t \in wait /\ wait' = wait \ {t} /\ UNCHANGED <<m, q, closed, pc, n, put, got, k>>
Next == \E t \in T : Step(t) \/ Spurious(t)
Prog == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars
Fifo == got \o q = put                       \* nothing lost, nothing twice, in order
\* whoever waits without having been notified waits on an empty and open queue, or somebody who was notified will go on
NoLostWakeup == (~ENABLED Prog) => \A t \in T : pc[t] = "idle" \/ (pc[t] = "wait" /\ q = <<>> /\ ~closed)
=============================================================================
