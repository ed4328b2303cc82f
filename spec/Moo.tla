-------------------------------- MODULE Moo ---------------------------------
(* Pareto dominance, fronts and depths over integer fitness vectors; +-Inf are the infinities. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Inf == 1000000
IsInf(x) == x >= Inf \/ x <= -Inf
Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
(* tol = <<absolute, n, d>>: a relative tolerance of n/d *)
Eq(a, b, t) == IF IsInf(a) \/ IsInf(b) THEN a = b
               ELSE Abs(a - b) <= t[1] \/ Abs(a - b) * t[3] <= MaxI(Abs(a), Abs(b)) * t[2]
Less(a, b, t) == a < b /\ ~Eq(a, b, t)
(* g is better than f *)
Worse(f, g, t) == (\A k \in DOMAIN f : ~Less(g[k], f[k], t)) /\ (\E k \in DOMAIN f : Less(f[k], g[k], t))
T0 == <<0, 0, 1>>
Dom(g, f) == Worse(f, g, T0)
(* the tolerances partition the values of every objective into classes *)
Classed(m, t) == m = <<>> \/ \A k \in DOMAIN m[1] : \A i, j, l \in DOMAIN m : Eq(m[i][k], m[j][k], t) /\ Eq(m[j][k], m[l][k], t) => Eq(m[i][k], m[l][k], t)
ParetoFront(m, t) == {i \in DOMAIN m : \A j \in DOMAIN m : ~Worse(m[i], m[j], t)}
(* dominance depth: peel off front after front *)
RECURSIVE Depths(_, _, _, _, _)
Depths(m, t, left, r, acc) ==
  IF left = {} THEN acc
  ELSE LET f == {i \in left : \A j \in left : ~Worse(m[i], m[j], t)}
       IN IF f = {} THEN [i \in DOMAIN m |-> -1]
          ELSE Depths(m, t, left \ f, r + 1, TLCEval([i \in DOMAIN m |-> IF i \in f THEN r ELSE acc[i]]))
Depth(m, t) == Depths(m, t, DOMAIN m, 0, [i \in DOMAIN m |-> -1])
SumS(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
ProdS(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
=============================================================================
