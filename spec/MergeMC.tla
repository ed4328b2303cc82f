------------------------------ MODULE MergeMC -------------------------------
(* The merge of two pareto sets: one task per left candidate, which reads and writes the states of the right ones     *)
(* while the other tasks do the same.  Every interleaving has to give the pareto set of the union.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, NL, NR
V == [1..2 -> 0..Max]
Dom(a, b) == (\A k \in 1..2 : a[k] >= b[k]) /\ a # b              \* a is better
Front(s) == \A i, j \in DOMAIN s : ~Dom(s[i], s[j])
VARIABLES L, R, ls, rs, j, r, pc
vars == <<L, R, ls, rs, j, r, pc>>
Init == /\ L \in {s \in [1..NL -> V] : Front(s)} /\ R \in {s \in [1..NR -> V] : Front(s)}
        /\ ls = [i \in 1..NL |-> "U"] /\ rs = [i \in 1..NR |-> "U"] /\ j = [i \in 1..NL |-> 1] /\ r = [i \in 1..NL |-> "U"] /\ pc = [i \in 1..NL |-> "load"]
Cont(i) == j' = [j EXCEPT ![i] = @ + 1] /\ pc' = [pc EXCEPT ![i] = "load"]
Step(i) ==
  /\ j[i] <= NR /\ UNCHANGED <<L, R>>
  /\ \/ pc[i] = "load" /\ r' = [r EXCEPT ![i] = rs[j[i]]] /\ pc' = [pc EXCEPT ![i] = "act"] /\ UNCHANGED <<ls, rs, j>>
     \/ /\ pc[i] = "act" /\ Cont(i) /\ UNCHANGED r
        /\ LET x == L[i] y == R[j[i]] st == r[i] IN
           IF ls[i] = "D" \/ st = "D" THEN UNCHANGED <<ls, rs>>
           ELSE IF ls[i] = "O" THEN (IF st = "U" /\ Dom(x, y) THEN rs' = [rs EXCEPT ![j[i]] = "D"] ELSE rs' = rs) /\ ls' = ls
           ELSE IF st = "O" THEN (IF Dom(y, x) THEN ls' = [ls EXCEPT ![i] = "D"] ELSE ls' = ls) /\ rs' = rs
           ELSE IF Dom(y, x) THEN ls' = [ls EXCEPT ![i] = "D"] /\ rs' = [rs EXCEPT ![j[i]] = "O"]
           ELSE IF Dom(x, y) THEN ls' = [ls EXCEPT ![i] = "O"] /\ rs' = [rs EXCEPT ![j[i]] = "D"]
           ELSE UNCHANGED <<ls, rs>>
Next == \E i \in 1..NL : Step(i)
Spec == Init /\ [][Next]_vars
Finished == \A i \in 1..NL : j[i] > NR
Right == Finished => /\ \A i \in 1..NL : (ls[i] # "D") <=> ~\E k \in 1..NR : Dom(R[k], L[i])
                     /\ \A k \in 1..NR : (rs[k] # "D") <=> ~\E i \in 1..NL : Dom(L[i], R[k])
=============================================================================
