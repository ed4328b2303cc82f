------------------------------- MODULE Bench --------------------------------
(* The benchmark problems as their documentation and the cited publications define them, evaluated in fixed point arithmetic   *)
(* (units of 1/16384) on grids of points, and the facts that each problem states about itself.                                *)
EXTENDS BenchTab, Integers, Sequences, SequencesExt, FiniteSets, TLC
B == 16384
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Rng(s) == {s[i] : i \in 1..Len(s)}
Sum(f(_), n) == FoldLeftDomain(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])
SumFrom(f(_), m, n) == FoldLeftDomain(LAMBDA a, i : IF i < m THEN a ELSE a + f(i), 0, [i \in 1..n |-> i])

(* ---- arithmetic: all of it on non-negative operands first ---- *)
MulP(a, b) == LET a1 == a \div 128 a0 == a % 128 b1 == b \div 128 b0 == b % 128
              IN a1 * b1 + (a1 * b0 + a0 * b1) \div 128 + (a0 * b0) \div B
Mul(a, b) == Sgn(a) * Sgn(b) * MulP(Abs(a), Abs(b))
DivP(a, b) == LET q == a \div b IN q * B + FoldLeftDomain(LAMBDA v, i : LET r == v[1] * 2 IN IF r >= b THEN <<r - b, v[2] * 2 + 1>> ELSE <<r, v[2] * 2>>, <<a % b, 0>>, [i \in 1..14 |-> i])[2]
Div(a, b) == Sgn(a) * Sgn(b) * DivP(Abs(a), Abs(b))
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
(* 16384 * sqrt(n), n below 2^30 *)
RECURSIVE Sqrt(_)
Sqrt(n) == IF n = 0 THEN 0
           ELSE IF n < 67108864
           THEN Sqrt(n * 4) \div 2
           ELSE LET s == Newton(n, 32768) IN s * B + ((n - s * s) * (B \div 2)) \div s
Turns(r) == (r * 113) \div 710                                   \* of an angle in radians
SinT(u) == LET v == u % B  i == v \div 256  r == v % 256
               d == (r * 710) \div 113
               s == SinTab[i + 1]  c == SinTab[((i + 16) % 64) + 1]
               d2 == MulP(d, d) \div 2
           IN s - Mul(s, d2) + Mul(c, d - MulP(d, d2) \div 3)
CosT(u) == SinT(u + 4096)
ExpN(t) == IF t \div 2048 >= 169 THEN 0
           ELSE LET e == ExpTab[t \div 2048 + 1]  d == t % 2048  d2 == MulP(d, d) \div 2
                IN Mul(e, B - d + d2 - MulP(d, d2) \div 3)
Sq(x) == Mul(x, x)

(* ---- the problems: k is the point in units of the problem's grid ---- *)
Grid(p) == CASE p \in {"Rosenbrock", "Kursawe"} -> 8 [] p \in {"Schwefel", "Griewank"} -> 16 [] OTHER -> 64
Sphere(k) == <<-(Sum(LAMBDA i : k[i] * k[i], Len(k)) * 4)>>
Rastrigin(k) == <<-(10 * B * Len(k) + Sum(LAMBDA i : k[i] * k[i] * 4 - 10 * CosT(k[i] * 256), Len(k)))>>
Rosenbrock(k) == <<-Sum(LAMBDA i : (LET n == 8 * k[i + 1] - k[i] * k[i] IN 400 * n * n) + 256 * (k[i] - 8) * (k[i] - 8), Len(k) - 1)>>
Schwefel(k) == LET term(i) == (k[i] * SinT(Turns(Sqrt(Abs(k[i])) \div 4))) \div 16
               IN <<-(Len(k) * 6864616 - Sum(term, Len(k)))>>
Griewank(k) == LET c(i) == CosT(Turns((Sqrt(k[i] * k[i] * i) \div i) \div 16))
               IN <<-(B + Sum(LAMBDA i : (k[i] * k[i] * 2) \div 125, Len(k)) - FoldLeftDomain(LAMBDA a, i : Mul(a, c(i)), B, k))>>
Ackley(k) == LET d == Len(k)
                 r == Sqrt((Sum(LAMBDA i : k[i] * k[i], d) * 16) \div d) \div 256
                 c == Sum(LAMBDA i : CosT(k[i] * 256), d) \div d
             IN <<20 * ExpN(r \div 5) + Mul(E1, ExpN(Max2(0, B - c))) - 20 * B - E1>>
Levy(k) == LET d == Len(k)
               sq(i) == ((k[i] - 64) * (k[i] - 64)) \div 4
               ph(i) == LET u == (k[i] + 192) * 32 IN Mul(SinT(u), Cos1) + Mul(CosT(u), Sin1)
           IN <<-(Sq(SinT((k[1] + 192) * 32)) + Sum(LAMBDA i : Mul(sq(i), B + 10 * Sq(ph(i))), d - 1) + Mul(sq(d), B + Sq(SinT((k[d] + 192) * 64))))>>
Kursawe(k) == LET d == Len(k)
                  f2(i) == Pow8Tab[Abs(k[i]) + 1] + 5 * SinT(Turns(k[i] * k[i] * k[i] * 32))
              IN <<10 * Sum(LAMBDA i : ExpN(Sqrt(k[i] * k[i] + k[i + 1] * k[i + 1]) \div 40), d - 1), -Sum(f2, d)>>
ZdtG(k) == B + (9 * SumFrom(LAMBDA i : k[i] * 256, 2, Len(k))) \div (Len(k) - 1)
ZDT1(k) == LET g == ZdtG(k) IN <<-(k[1] * 256), -(g - Sqrt(k[1] * g) \div 1024)>>
ZDT2(k) == LET g == ZdtG(k) IN <<-(k[1] * 256), -(g - Div(k[1] * k[1] * 4, g))>>
ZDT3(k) == LET g == ZdtG(k) IN <<-(k[1] * 256), -(g - Sqrt(k[1] * g) \div 1024 - (k[1] * SinT(5 * k[1] * 256)) \div 64)>>
ZDT4(k) == LET g == B + 10 * B * (Len(k) - 1) + SumFrom(LAMBDA i : k[i] * k[i] * 4 - 10 * CosT(2 * k[i] * 256), 2, Len(k))
           IN <<-(k[1] * 256), -(g - Sqrt(k[1] * g) \div 1024)>>
ZDT5(k) == LET f1 == 1 + Sum(LAMBDA i : k[i], 30)
               n == (Len(k) - 30) \div 5
               ones(j) == Sum(LAMBDA i : k[30 + 5 * (j - 1) + i], 5)
               g == Sum(LAMBDA j : IF ones(j) = 5 THEN 1 ELSE 2 + ones(j), n)
           IN <<-(f1 * B), -Div(g * B, f1 * B)>>
ZDT6(k) == LET s == Sq(SinT(3 * k[1] * 256))
               f1 == B - Mul(ExpN(k[1] * 1024), Mul(s, Mul(s, s)))
               m == SumFrom(LAMBDA i : k[i], 2, Len(k))
               rt == Sqrt((m * 1048576) \div (Len(k) - 1)) \div 8192                     \* sqrt(mean)
               g == B + 9 * (Sqrt(rt * 4096) \div 8192)                                  \* sqrt(rt/B) in units: sqrt(rt*4096)/8192*B/B
           IN <<-f1, -(g - Div(Sq(f1), g))>>
Half2(k, m) == SumFrom(LAMBDA i : (k[i] - 32) * (k[i] - 32) * 4, m, Len(k))
G1(k, m) == 100 * (B * (Len(k) - m + 1) + SumFrom(LAMBDA i : (k[i] - 32) * (k[i] - 32) * 4 - CosT(10 * (k[i] - 32) * 256), m, Len(k)))
(* objective 1 has all the cosines, objective j the first m-j cosines and the sine of the next *)
DTLZ1(k, m) == LET cs(a, i) == (a * k[i]) \div 64  sn(a, i) == (a * (64 - k[i])) \div 64
               IN [j \in 1..m |-> LET p == FoldLeftDomain(LAMBDA a, i : cs(a, i), (B + G1(k, m)) \div 2, [i \in 1..(m - j) |-> i])
                                  IN -(IF j = 1 THEN p ELSE sn(p, m - j + 1))]
Sphere2(k, m, g, ang(_)) == [j \in 1..m |-> LET p == FoldLeftDomain(LAMBDA a, i : Mul(a, CosT(ang(i))), B + g, [i \in 1..(m - j) |-> i])
                                            IN -(IF j = 1 THEN p ELSE Mul(p, SinT(ang(m - j + 1))))]
DTLZ2(k, m) == Sphere2(k, m, Half2(k, m), LAMBDA i : k[i] * 64)
DTLZ3(k, m) == Sphere2(k, m, G1(k, m), LAMBDA i : k[i] * 64)
DTLZ4(k, m) == DTLZ2(k, m)                                       \* k[i]/64 is the 100th power of the variable
Curve(k, m, g) == Sphere2(k, m, g, LAMBDA i : IF i = 1 THEN k[1] * 64 ELSE Div(Mul(g, k[i] * 256) + B \div 2, B + g) \div 4)
DTLZ5(k, m) == Curve(k, m, Half2(k, m))
DTLZ6(k, m) == Curve(k, m, SumFrom(LAMBDA i : k[i] * 256, m, Len(k)))   \* of the tail, k[i]/64 is the 10th root of the variable
DTLZ7(k, m) == LET g == B + (9 * SumFrom(LAMBDA i : k[i] * 256, m, Len(k))) \div (Len(k) - m + 1)
               IN [j \in 1..m |-> IF j < m THEN -(k[j] * 256)
                                  ELSE -((B + g) * m - Sum(LAMBDA i : (k[i] * (B + SinT(384 * k[i]))) \div 64, m - 1))]
Val(p, k, m) == CASE p = "Sphere" -> Sphere(k) [] p = "Rastrigin" -> Rastrigin(k) [] p = "Rosenbrock" -> Rosenbrock(k) [] p = "Schwefel" -> Schwefel(k)
                  [] p = "Griewank" -> Griewank(k) [] p = "Ackley" -> Ackley(k) [] p = "Levy" -> Levy(k) [] p = "Kursawe" -> Kursawe(k)
                  [] p = "ZDT1" -> ZDT1(k) [] p = "ZDT2" -> ZDT2(k) [] p = "ZDT3" -> ZDT3(k) [] p = "ZDT4" -> ZDT4(k) [] p = "ZDT5" -> ZDT5(k) [] p = "ZDT6" -> ZDT6(k)
                  [] p = "DTLZ1" -> DTLZ1(k, m) [] p = "DTLZ2" -> DTLZ2(k, m) [] p = "DTLZ3" -> DTLZ3(k, m) [] p = "DTLZ4" -> DTLZ4(k, m)
                  [] p = "DTLZ5" -> DTLZ5(k, m) [] p = "DTLZ6" -> DTLZ6(k, m) [] p = "DTLZ7" -> DTLZ7(k, m)
(* what the approximation of the specification may amount to *)
Tol(p, k, m, v) == CASE p = "Schwefel" -> 4000 * Len(k) [] p = "Griewank" -> 40 * Len(k) + Abs(v) \div 500
                     [] p = "ZDT4" -> 100 + Abs(v) \div 500
                     [] p \in {"Rosenbrock", "Sphere"} -> 2 + Abs(v) \div 100000
                     [] p \in {"DTLZ1", "DTLZ3"} -> 30 + (B + G1(k, m)) \div 500
                     [] p \in {"ZDT6"} -> 100 + Abs(v) \div 500
                     [] p = "Kursawe" -> 60 + 100 * Len(k) + Abs(v) \div 500
                     [] OTHER -> 60 + 30 * Len(k) + Abs(v) \div 500
ValOk(e) == LET v == Val(e.p, e.k, e.m)
            IN /\ Len(e.f) = Len(v)
               /\ \A j \in 1..Len(v) : Abs(e.f[j] - v[j]) <= Tol(e.p, e.k, e.m, v[j])

(* ---- what each problem states about itself; lo, hi, points and values in units of 1/16384 ---- *)
Near(a, b) == Abs(a - b) <= 1
Fill(n, v) == [i \in 1..n |-> v]
NearAll(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i])
Lim(p) == CASE p \in {"Sphere", "Rastrigin"} -> <<-83886, 83886>> [] p = "Rosenbrock" -> <<-33554, 33554>> [] p = "Schwefel" -> <<-8192000, 8192000>>
            [] p = "Griewank" -> <<-9830400, 9830400>> [] p = "Ackley" -> <<-536871, 536871>> [] p = "Levy" -> <<-163840, 163840>> [] p \in {"Kursawe", "ZDT4"} -> <<-81920, 81920>>
            [] OTHER -> <<0, B>>
Lims(p, n) == [i \in 1..n |-> IF p = "ZDT4" /\ i = 1 THEN <<0, B>> ELSE Lim(p)]
OptV(p, d) == CASE p \in {"Rosenbrock", "Levy"} -> B [] p = "Schwefel" -> 6897151 [] OTHER -> 0
Single == {"Sphere", "Rastrigin", "Rosenbrock", "Schwefel", "Griewank", "Ackley", "Levy"}
KDtlz(p) == CASE p = "DTLZ1" -> 5 [] p = "DTLZ7" -> 20 [] OTHER -> 10
Dtlz == {"DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "DTLZ5", "DTLZ6", "DTLZ7"}
Rt2(n) == Sqrt(2 ^ (20 - n)) \div 1024                          \* (1/sqrt 2)^n
Nadir56(m) == [j \in 1..m |-> -Rt2(IF j = 1 THEN m - 2 ELSE m - j)]
NObj(p, a) == IF p \in Dtlz THEN a ELSE IF p \in Single THEN 1 ELSE 2
NVars(p, a) == IF p \in Dtlz THEN a - 1 + KDtlz(p) ELSE IF p = "ZDT5" THEN 30 + 5 * (a - 1) ELSE a
Ideal(p, a) == CASE p \in Single -> <<0>> [] p \in {"ZDT1", "ZDT2", "ZDT4", "ZDT6"} -> <<0, 0>> [] p = "ZDT3" -> <<0, 13107>>
                 [] p = "ZDT5" -> <<-B, -Div((a - 1) * B, 31 * B)>> [] p = "Kursawe" -> <<10 * (a - 1) * B, ((385 * (a - 1) + 400) * B) \div 100>>
                 [] p = "DTLZ7" -> [j \in 1..a |-> IF j < a THEN 0 ELSE -(5030 * a + 27738)]
                 [] OTHER -> Fill(a, 0)
Nadir(p, a) == CASE p \in Single -> <<0>> [] p \in {"ZDT1", "ZDT2", "ZDT4"} -> <<-B, -B>> [] p = "ZDT3" -> <<-13926, -B>> [] p = "ZDT6" -> <<-B, -15073>>
                 [] p = "ZDT5" -> <<-31 * B, -(a - 1) * B>> [] p = "Kursawe" -> <<(725 * (a - 1) * B) \div 100, 0>>
                 [] p = "DTLZ1" -> Fill(a, -8192) [] p \in {"DTLZ2", "DTLZ3", "DTLZ4"} -> Fill(a, -B) [] p \in {"DTLZ5", "DTLZ6"} -> Nadir56(a)
                 [] p = "DTLZ7" -> [j \in 1..a |-> IF j < a THEN -B ELSE -2 * a * B]
Close(s, t, n) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Abs(s[i] - t[i]) <= n
InfoOk(e) == /\ e.nobj = NObj(e.p, e.a) /\ e.nvars = NVars(e.p, e.a)
             /\ (IF e.p = "ZDT5" THEN e.lims = Fill(e.nvars, <<0, B>>) ELSE Len(e.lims) = e.nvars /\ \A i \in 1..e.nvars : Close(e.lims[i], Lims(e.p, e.nvars)[i], 1))
             /\ Close(e.ideal, Ideal(e.p, e.a), 4 + e.a) /\ Close(e.nadir, Nadir(e.p, e.a), 4 + e.a)
             \* the stated optimum lies in the domain, its value is the stated one, and is a point of the optimal set
             /\ Len(e.opt) = e.nvars /\ \A i \in 1..e.nvars : e.lims[i][1] <= e.opt[i] /\ e.opt[i] <= e.lims[i][2]
             /\ Len(e.optf) = e.nobj /\ e.opterr <= 1                                        \* in units of 10^-6
             /\ (e.p \in Single => NearAll(e.opt, Fill(e.nvars, OptV(e.p, e.nvars))) /\ NearAll(e.optf, <<0>>))
             /\ (e.p \in Dtlz \cup {"ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT5", "ZDT6"} => \A j \in 1..e.nobj : e.optf[j] <= e.ideal[j] + 1)
(* no point of the domain is better than the ideal point; how much the best seen was better, in units of 10^-6 *)
BestOk(e) == \A j \in 1..Len(e.over) : e.over[j] <= (IF e.p = "Kursawe" THEN 50000 * e.a ELSE 1)   \* its extreme points are approximate
(* a variable is the binary number of its group of bits, scaled to its bounds *)
BinVal(bits) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bits)
BinOk(e) == LET n == Len(e.pt)
                grp(i) == SubSeq(e.bits, (i - 1) * e.vb + 1, (i - 1) * e.vb + (IF e.vb <= 14 THEN e.vb ELSE 14))
                full == IF e.vb <= 14 THEN 2 ^ e.vb - 1 ELSE B
                at(i) == e.lims[i][1] + Mul(e.lims[i][2] - e.lims[i][1], Div(BinVal(grp(i)), full))
            IN /\ Len(e.bits) = n * e.vb /\ e.blen = Len(e.bits)
               /\ \A i \in 1..n : Abs(e.pt[i] - at(i)) <= 4 + (e.lims[i][2] - e.lims[i][1]) \div 4096
               /\ e.diff = 0                                                                 \* the fitness there, relative difference in units of 10^-6
(* the closed tour through the cities in the order of the chromosome, with the last city fixed *)
(* one objective: the ideal and the nadir point are the optimal value *)
OneOpt(e) == e.ideal = <<e.opt>> /\ e.nadir = <<e.opt>>
TspOk(e) == LET n == Len(e.c)
                tour == <<n>> \o [i \in 1..Len(e.t) |-> e.t[i] + 1]
                d(a, b) == LET x == e.c[a][1] - e.c[b][1] y == e.c[a][2] - e.c[b][2] IN Sqrt(x * x + y * y)
            IN /\ e.nvars = n - 1 /\ e.nobj = 1 /\ e.lims = Fill(n - 1, <<0, n - 2>>)
               /\ e.opt = e.given /\ OneOpt(e)
               /\ Len(e.f) = 1
               /\ Abs(-e.f[1] - Sum(LAMBDA i : d(tour[i], tour[IF i = Len(tour) THEN 1 ELSE i + 1]), Len(tour))) <= 4 * n
(* a supplied instance: number of cities, length of a tour relative to the distances of its own city list, and no tour beats the stated optimum *)
Known == {<<"TSP52", 52, 7542>>, <<"TSP76", 76, 108159>>, <<"TSP124", 124, 59030>>, <<"TSP152", 152, 73682>>, <<"TSP226", 226, 80369>>, <<"TSP299", 299, 48191>>, <<"TSP439", 439, 107217>>}
InstOk(e) == /\ <<e.p, e.cities, -e.opt>> \in Known /\ OneOpt(e) /\ e.nvars = e.cities - 1
             /\ Abs(e.f - e.len) <= 1 + Abs(e.len) \div 100000                              \* thousandths
             /\ e.f \div 1000 <= e.opt + Abs(e.opt) \div 1000                               \* the stated optima are of rounded distances
StrOk(e) == LET n == Len(e.t)
            IN /\ e.nvars = n /\ e.nobj = 1 /\ e.opt = n /\ OneOpt(e)
               /\ \A i \in 1..n : e.lims[i][1] <= 32 /\ e.lims[i][2] >= 126
               /\ e.f = <<Cardinality({i \in 1..n : e.t[i] = e.c[i]})>>
Step(s, e) == LET ok == CASE e.op = "val" -> ValOk(e) [] e.op = "info" -> InfoOk(e) [] e.op = "best" -> BestOk(e) [] e.op = "bin" -> BinOk(e)
                          [] e.op = "tsp" -> TspOk(e) [] e.op = "inst" -> InstOk(e) [] e.op = "str" -> StrOk(e) [] OTHER -> FALSE
              IN IF ok THEN {s} ELSE {}
=============================================================================
