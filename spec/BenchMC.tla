------------------------------ MODULE BenchMC -------------------------------
(* The definitions of Bench on coarse grids of every problem: the stated ideal point is never beaten, the stated optimal sets  *)
(* satisfy the stated equations, and every point is emitted to be evaluated by the real problem.                              *)
EXTENDS Bench, Json, IOUtils
CONSTANT Fine
VARIABLES p, k, m
vars == <<p, k, m>>
Axis(q) ==
  CASE q \in {"Sphere", "Rastrigin"} -> {-327, -160, -64, -32, -16, -5, 0, 8, 32, 48, 64, 200, 327} \cup (IF Fine THEN {10 * i : i \in -32..32} ELSE {})
    [] q = "Rosenbrock" -> {-16, -8, -3, 0, 4, 8, 9, 16} \cup (IF Fine THEN -16..16 ELSE {})
    [] q = "Schwefel" -> {-8000, -6735, -4842, -16, 0, 1, 400, 3262, 6735, 6736, 8000} \cup (IF Fine THEN {250 * i : i \in -32..32} ELSE {})
    [] q = "Griewank" -> {-9600, -301, -100, -8, 0, 25, 50, 71, 9600} \cup (IF Fine THEN {50 * i : i \in -30..30} ELSE {})
    [] q = "Ackley" -> {-2097, -640, -64, -32, -7, 0, 16, 48, 1280, 2097} \cup (IF Fine THEN {30 * i : i \in -64..64} ELSE {})
    [] q = "Levy" -> {-640, -192, -64, 0, 60, 64, 68, 320, 640} \cup (IF Fine THEN {20 * i : i \in -32..32} ELSE {})
    [] q = "Kursawe" -> {-40, -11, -9, -8, 0, 1, 8, 40} \cup (IF Fine THEN -40..40 ELSE {})
    [] q = "ZDT4" -> {-320, -32, -16, 0, 8, 16, 32, 64, 320} \cup (IF Fine THEN {4 * i : i \in -80..80} ELSE {})
    [] OTHER -> {0, 1, 5, 16, 32, 37, 48, 63, 64} \cup (IF Fine THEN 0..64 ELSE {})
First(q) == IF q = "ZDT4" THEN Axis("ZDT1") ELSE Axis(q)
Reals == Single \cup {"Kursawe", "ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"}
Init == \/ p \in Reals /\ m = (IF p \in Single THEN 1 ELSE 2) /\ k \in {<<a, b>> : a \in First(p), b \in Axis(p)}
        \/ p \in Dtlz /\ m \in {2, 3} /\ k \in {(IF m = 2 THEN <<a>> ELSE <<a, b>>) \o [i \in 1..KDtlz(p) |-> IF i = 1 THEN c ELSE d]
                                                : a \in Axis(p), b \in {0, 16, 64}, c \in Axis(p), d \in {0, 32, 40}}
Spec == Init /\ [][UNCHANGED vars]_vars
V == Val(p, k, m)
T(j) == Tol(p, k, m, V[j])
A == IF p \in Dtlz THEN m ELSE Len(k)
NotBeaten == \A j \in 1..m : V[j] <= Ideal(p, A)[j] + T(j) + (IF p = "Kursawe" THEN 1000 ELSE 0)
Norm2 == FoldLeftDomain(LAMBDA a, j : a + Sq(V[j]), 0, V)
OnFront == (p \in Dtlz /\ \A i \in m..Len(k) : k[i] = (IF p \in {"DTLZ6", "DTLZ7"} THEN 0 ELSE 32)) =>
             CASE p = "DTLZ1" -> Abs(FoldLeftDomain(LAMBDA a, j : a + V[j], 0, V) + B \div 2) <= 40
               [] p = "DTLZ7" -> TRUE
               [] OTHER -> Abs(Norm2 - B) <= 80
InNadir == (p \in {"DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "DTLZ5", "DTLZ6", "DTLZ7"} /\ \A i \in m..Len(k) : k[i] = (IF p \in {"DTLZ6", "DTLZ7"} THEN 0 ELSE 32)) =>
             \A j \in 1..m : V[j] >= Nadir(p, m)[j] - 60
Names == <<"Sphere", "Rastrigin", "Rosenbrock", "Schwefel", "Griewank", "Ackley", "Levy", "Kursawe", "ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6", "DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "DTLZ5", "DTLZ6", "DTLZ7">>
Report == (IOEnv.GEN = "1") => PrintT(<<"GEN", ToJson(<< <<(CHOOSE i \in 1..Len(Names) : Names[i] = p) - 1, m>> \o k >>)>>)
=============================================================================
