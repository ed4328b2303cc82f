------------------------------- MODULE RangeMC -------------------------------
(* Every short sequence over a small alphabet; the definitions are satisfiable on each, and agree with each other.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxLen, MaxVal
R == INSTANCE Range WITH Props <- {"D07"}
VARIABLES v
Init == v = <<>>
Next == Len(v) < MaxLen /\ \E x \in 0..MaxVal : v' = Append(v, x)
Spec == Init /\ [][Next]_v
n == Len(v)
Perms == {p \in [1..n -> 0..(n - 1)] : Cardinality({p[i] : i \in 1..n}) = n}
Ev(p, m, d) == [op |-> "argsort", v |-> v, g |-> 1, desc |-> d, m |-> m, out |-> p]
Inv == /\ (IOEnv.GEN = "1") => PrintT(<<"GEN", ToJson(<<v>>)>>)
       /\ \A m \in 0..n, d \in {TRUE, FALSE} :
            LET S == {p \in Perms : R!ArgsortOk(Ev(p, m, d))} IN
            /\ S # {}                                                       \* there always is an answer
            /\ m >= 1 => \A p, q \in S : \A i \in 1..m : v[p[i] + 1] = v[q[i] + 1]   \* and all answers agree up to ties
       /\ n > 0 => LET p == CHOOSE p \in Perms : R!ArgsortOk(Ev(p, n, FALSE))
                       s == [i \in 1..n |-> v[p[i] + 1]] IN
                   \A x \in -1..(MaxVal + 1) : R!LowerOk([v |-> s, x |-> x, pos |-> R!N(LAMBDA y : y < x, v), d |-> <<>>, dpos |-> 0])
=============================================================================
