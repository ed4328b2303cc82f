-------------------------------- MODULE SetMC -------------------------------
(* All small sets of fitness vectors; the depth of the specification is checked against its declarative reading. *)
EXTENDS Moo, TLC, Json, IOUtils
VARIABLE m
Vecs == IF Len(m) = 0 THEN {<<a, b>> : a, b \in 0..2} \cup {<<a, b, c>> : a, b, c \in 0..1} \cup {<<a>> : a \in 0..2}
        ELSE IF Len(m[1]) = 1 THEN {<<a>> : a \in 0..2} ELSE IF Len(m[1]) = 2 THEN {<<a, b>> : a, b \in 0..2} ELSE {<<a, b, c>> : a, b, c \in 0..1}
Init == m = <<>>
Next == Len(m) < 3 /\ \E v \in Vecs : m' = Append(m, v)
Spec == Init /\ [][Next]_m
D == Depth(m, T0)
DepthOk == /\ \A i \in DOMAIN m : (D[i] = 0) <=> i \in ParetoFront(m, T0)
           /\ \A i, j \in DOMAIN m : Dom(m[j], m[i]) => D[j] < D[i]
           /\ \A i \in DOMAIN m : D[i] > 0 => \E j \in DOMAIN m : Dom(m[j], m[i]) /\ D[j] = D[i] - 1
           /\ \A i, j \in DOMAIN m : m[i] = m[j] => D[i] = D[j]
Gen == (m # <<>> /\ IOEnv.GEN = "1") => PrintT(<<"GEN", ToJson(<<<<Len(m[1])>> \o FlattenSeq(m)>>)>>)
=============================================================================
