------------------------------- MODULE StopMC -------------------------------
(* The stall conditions as counters (GaHist's formulation) against the statement they implement, for all short        *)
(* histories of one or two objectives; every history is emitted and replayed on the code.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Vals, MaxLen, Patiences, Deltas, Dims
VARIABLES p, dl, d, h, best, idle, held
vars == <<p, dl, d, h, best, idle, held>>
NoBest == -1000
Init == p \in Patiences /\ dl \in Deltas /\ d \in Dims /\ h = <<>> /\ best = [k \in 1..d |-> NoBest] /\ idle = 0 /\ held = FALSE
Next == /\ Len(h) < MaxLen /\ ~held
        /\ \E v \in [1..d -> Vals] :
             LET up == {k \in 1..d : best[k] = NoBest \/ v[k] >= best[k] + dl}
             IN /\ h' = Append(h, v)
                /\ best' = [k \in 1..d |-> IF k \in up THEN v[k] ELSE best[k]]
                /\ idle' = IF up = {} THEN idle + 1 ELSE 0
                /\ held' = (idle' > p)
        /\ UNCHANGED <<p, dl, d>>
Spec == Init /\ [][Next]_vars
(* the value of objective k at its last recognised improvement within the first n generations *)
RECURSIVE Ref(_, _)
Ref(k, n) == IF n = 0 THEN NoBest ELSE LET b == Ref(k, n - 1) IN IF b = NoBest \/ h[n][k] >= b + dl THEN h[n][k] ELSE b
Improves(n) == \E k \in 1..d : Ref(k, n - 1) = NoBest \/ h[n][k] >= Ref(k, n - 1) + dl
Statement == held <=> (Len(h) > p /\ \A n \in (Len(h) - p)..Len(h) : ~Improves(n))
First == \A m \in 1..(Len(h) - 1) : ~(m > p /\ \A n \in (m - p)..m : ~Improves(n))
Flat(q) == IF d = 1 THEN [i \in 1..Len(q) |-> q[i][1]] ELSE [i \in 1..(2 * Len(q)) |-> q[(i + 1) \div 2][2 - (i % 2)]]
Emit == (IOEnv.GEN = "1" /\ (held \/ Len(h) = MaxLen)) => PrintT(<<"GEN", ToJson(<<<<p, dl, d>> \o Flat(h)>>)>>)
Inv == (Len(h) > 0 => Statement /\ First) /\ Emit
=============================================================================
