------------------------------- MODULE XoMC ---------------------------------
(* All small pairs of parents, operators and parameters: the constructions of Ops keep permutations permutations and
   have the properties that define them. Prints the pairs for replay on the code.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS AllUpTo, IdUpTo
O == INSTANCE Ops WITH Props <- {}
Perms(n) == {p \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Id(n) == [i \in 1..n |-> i - 1]
VARIABLES a, b, k
Init == /\ \/ \E n \in 1..AllUpTo : a \in Perms(n) /\ b \in Perms(n)
           \/ \E n \in (AllUpTo + 1)..IdUpTo : a = Id(n) /\ b \in Perms(n)
        /\ k = 0
Next == k < 6 /\ k' = k + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, k>>
n == Len(a)
Ranges == {<<f, l>> \in (1..n) \X (1..n) : f <= l}
Kept(c, d, f, l) == \A i \in f..l : c[i] = a[i] /\ d[i] = b[i]
(* genes outside the range appear in the order in which they appear in q, read cyclically from position s on *)
From(c, s, S) == SelectSeq([i \in 1..n |-> c[((s + i - 2) % n) + 1]], LAMBDA g : g \notin S)
Good ==
  CASE k = 1 -> \A r \in Ranges : LET f == r[1] l == r[2] c == O!Order1(a, b, f, l) d == O!Order1(b, a, f, l) IN
                  /\ O!IsPerm(c, a) /\ O!IsPerm(d, a) /\ Kept(c, d, f, l) /\ O!PermKids("Order1", a, b, c, d)
                  /\ From(c, l + 1, O!Seg(a, f, l)) = From(b, l + 1, O!Seg(a, f, l))
    [] k = 2 -> \A r \in Ranges : LET f == r[1] l == r[2] c == O!Order2(a, b, f, l) d == O!Order2(b, a, f, l) IN
                  /\ O!IsPerm(c, a) /\ O!IsPerm(d, a) /\ Kept(c, d, f, l) /\ O!PermKids("Order2", a, b, c, d)
                  /\ From(c, 1, O!Seg(a, f, l)) = From(b, 1, O!Seg(a, f, l))
    [] k = 3 -> \A I \in SUBSET (1..n) : I # {} => LET c == O!Position(a, b, I) d == O!Position(b, a, I) IN
                  /\ O!IsPerm(c, a) /\ O!IsPerm(d, a) /\ (n > 1 => O!PermKids("Position", a, b, c, d))
    [] k = 4 -> LET I == O!CycleSet(a, b) c == O!Swapped(a, b, I) d == O!Swapped(b, a, I) IN
                  /\ O!IsPerm(c, a) /\ O!IsPerm(d, a) /\ 1 \notin I /\ (n > 1 => O!PermKids("Cycle", a, b, c, d))
    [] k = 6 -> \A r \in Ranges : LET f == r[1] l == r[2] c == O!Pmx(a, b, f, l) d == O!Pmx(b, a, f, l) IN
                  /\ O!IsPerm(c, a) /\ O!IsPerm(d, a) /\ Kept(c, d, f, l) /\ O!PermKids("PMX", a, b, c, d)
                  /\ \A i \in 1..n : (i \notin f..l /\ b[i] \notin O!Seg(a, f, l)) => c[i] = b[i]
    [] OTHER -> TRUE
Muts == IF a = Id(n) /\ b = a THEN {<<2, m, x>> : m \in 0..4, x \in {0, 4, 8, 12, 16}} ELSE {}
Report == /\ (IOEnv.GEN = "1" /\ k > 0) => PrintT(<<"GEN", ToJson(<< <<1, k - 1, 0>> \o a \o b >>)>>)
          /\ (IOEnv.GEN = "1" /\ k = 0) => \A m \in Muts : PrintT(<<"GEN", ToJson(<<m \o a>>)>>)
=============================================================================
