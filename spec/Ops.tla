-------------------------------- MODULE Ops ---------------------------------
(* Crossover and mutation operators: the constructions of the documentation, and what an outcome may be.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Props
On(p, c) == (p \in Props) => c
Ran(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
IsPerm(c, p) == Len(c) = Len(p) /\ Ran(c) = Ran(p)
Idle == [ph |-> "idle"]
(* ---------------- permutations: a is the parent whose genes are kept in place, positions are f..l ---------------- *)
Without(b, S) == SelectSeq(b, LAMBDA g : g \notin S)
Seg(a, f, l) == {a[i] : i \in f..l}
Order1(a, b, f, l) ==
  LET n == Len(a)
      q == Without([k \in 1..n |-> b[((l + k - 1) % n) + 1]], Seg(a, f, l))
  IN [i \in 1..n |-> IF i \in f..l THEN a[i] ELSE q[((i - l - 1) % n) + 1]]
Order2(a, b, f, l) ==
  LET q == Without(b, Seg(a, f, l))
  IN [i \in 1..Len(a) |-> IF i \in f..l THEN a[i] ELSE IF i < f THEN q[i] ELSE q[i - (l - f + 1)]]
Position(a, b, I) ==
  LET q == Without(b, {a[i] : i \in I})
  IN [i \in 1..Len(a) |-> IF i \in I THEN a[i] ELSE q[Cardinality({j \in 1..i : j \notin I})]]
At(a) == [v \in Ran(a) |-> CHOOSE i \in DOMAIN a : a[i] = v]
RECURSIVE Follow(_, _, _, _)
Follow(v, b, at, S) == IF v \in S THEN Follow(b[at[v]], b, at, S) ELSE v
Pmx(a, b, f, l) ==
  LET S == Seg(a, f, l) at == At(a)
  IN [i \in 1..Len(a) |-> IF i \in f..l THEN a[i] ELSE Follow(b[i], b, at, S)]
RECURSIVE Orbit(_, _, _, _)
Orbit(P, i, b, at) == IF i \in P THEN P ELSE Orbit(P \cup {i}, at[b[i]], b, at)
RECURSIVE Odd(_, _, _, _, _)                             \* the positions of every second cycle
Odd(left, odd, a, b, at) ==
  IF left = {} THEN {}
  ELSE LET o == Orbit({}, CHOOSE i \in left : \A j \in left : i <= j, b, at)
       IN (IF odd THEN o ELSE {}) \cup Odd(left \ o, ~odd, a, b, at)
Swapped(a, b, I) == [i \in 1..Len(a) |-> IF i \in I THEN b[i] ELSE a[i]]
CycleSet(a, b) == Odd(1..Len(a), FALSE, a, b, At(a))

(* may (c, d) be the children of (a, b)? *)
RangeKids(K(_, _, _, _), a, b, c, d) ==
  \E f \in 1..Len(a) : \E l \in f..Len(a) : /\ \A i \in f..l : c[i] = a[i] /\ d[i] = b[i]
                                            /\ c = K(a, b, f, l) /\ d = K(b, a, f, l)
Copy(a, b, c, d) == c = a /\ d = b
PermKids(kind, a, b, c, d) ==
  /\ IsPerm(c, a) /\ IsPerm(d, a)
  /\ CASE Len(a) < 2 -> Copy(a, b, c, d)
       [] kind = "Order1" -> RangeKids(Order1, a, b, c, d)
       [] kind = "Order2" -> RangeKids(Order2, a, b, c, d)
       [] kind = "PMX" -> RangeKids(Pmx, a, b, c, d)
       [] kind = "Position" -> LET I == {i \in 1..Len(a) : c[i] = a[i] /\ d[i] = b[i]}      \* if any choice explains the children, this one does
                               IN I # {} /\ c = Position(a, b, I) /\ d = Position(b, a, I)
       [] kind = "Cycle" -> LET I == CycleSet(a, b) IN c = Swapped(a, b, I) /\ d = Swapped(b, a, I)
       [] OTHER -> TRUE
(* ---------------- exchanges: how often the children may change between the parents from left to right ---------------- *)
Sides(a, b, c, d, i) == (IF c[i] = a[i] /\ d[i] = b[i] THEN {0} ELSE {}) \cup (IF c[i] = b[i] /\ d[i] = a[i] THEN {1} ELSE {})
RECURSIVE Turns(_, _, _, _, _)
Turns(a, b, c, d, i) ==
  IF i = 1 THEN {<<s, 0>> : s \in Sides(a, b, c, d, 1)}
  ELSE LET t == Turns(a, b, c, d, i - 1) IN UNION {{<<s, x[2] + Abs(s - x[1])>> : x \in t} : s \in Sides(a, b, c, d, i)}
ExchangeKids(kind, par, a, b, c, d) ==
  /\ Len(c) = Len(a) /\ Len(d) = Len(a)
  /\ LET T == {x[2] : x \in Turns(a, b, c, d, Len(a))}
         num == Lo(par[1], Len(a))
     IN CASE kind = "SinglePoint" -> \E t \in T : t <= 1
          [] kind = "TwoPoint" -> \E t \in T : t <= 2
          [] kind = "NPoint" -> \E t \in T : t = num \/ t = num - 1          \* a point before the first gene exchanges the children
          [] kind = "Uniform" -> T # {} /\ (par[1] \in {0, 16} => 0 \in T)
          [] OTHER -> FALSE
(* ---------------- real numbers in units of 1/256, rounded ---------------- *)
In(x, a, b) == Lo(a, b) - 2 <= x /\ x <= Hi(a, b) + 2
Ratio(x, y, u, v) == Abs(x * v - y * u) <= 3 * (Abs(u) + Abs(v)) + 12        \* x : u = y : v
Dominated(f, g) == (\A k \in DOMAIN f : f[k] <= g[k]) /\ f # g
WrightFrom(e, p, q, c) ==
  LET n == Len(p)
      cl(i, x) == Hi(e.lo[i], Lo(e.hi[i], x))
      free(i) == e.lo[i] + 2 < c[i] /\ c[i] < e.hi[i] - 2
  IN /\ \A i \in 1..n : In(c[i], cl(i, p[i]), cl(i, 2 * p[i] - q[i]))
     /\ \A i, j \in 1..n : (free(i) /\ free(j)) => Ratio(c[i] - p[i], c[j] - p[j], p[i] - q[i], p[j] - q[j])
RealKids(e, c, d) ==
  LET n == Len(e.p1) a == e.p1 b == e.p2
  IN /\ Len(c) = n /\ Len(d) = n
     /\ CASE e.kind = "Arithmetic" -> /\ \A i \in 1..n : In(c[i], a[i], b[i]) /\ In(d[i], a[i], b[i]) /\ Abs(c[i] + d[i] - a[i] - b[i]) <= 3
                                      /\ \A i, j \in 1..n : Ratio(c[i] - b[i], c[j] - b[j], a[i] - b[i], a[j] - b[j])
          [] e.kind = "BLXa" -> \A i \in 1..n : LET x == (e.par[1] * Abs(a[i] - b[i])) \div 16
                                                    lo == Lo(a[i], b[i]) - x - 1 hi == Hi(a[i], b[i]) + x + 1
                                                IN In(c[i], lo, hi) /\ In(d[i], lo, hi)
          [] e.kind = "Wright" -> \E w \in {1, 2} : /\ w = 1 => ~Dominated(e.f1, e.f2)
                                                    /\ w = 2 => ~Dominated(e.f2, e.f1)
                                                    /\ LET p == IF w = 1 THEN a ELSE b q == IF w = 1 THEN b ELSE a
                                                       IN WrightFrom(e, p, q, c) /\ WrightFrom(e, p, q, d)
          [] OTHER -> TRUE
Legal(codes) == \A x \in Ran(codes) : \A i \in DOMAIN x : x[i] \in -1..1
XoOk(e) ==
  /\ On("V01", e.same)
  /\ On("V01", \A o \in Ran(e.outs) :
        LET c == o[1] d == o[2] IN
        CASE e.enc = "perm" -> PermKids(e.kind, e.p1, e.p2, c, d) \/ PermKids(e.kind, e.p1, e.p2, d, c)
          [] e.enc = "real" -> RealKids(e, c, d) \/ RealKids(e, d, c)
          [] OTHER -> ExchangeKids(e.kind, e.par, e.p1, e.p2, c, d))
  /\ On("V01", e.enc \in {"int", "real"} => Legal(e.codes) /\ \A x \in Ran(e.codes) : Len(x) = Len(e.p1))

(* ---------------- mutations ---------------- *)
Diff(a, c) == {i \in 1..Len(a) : a[i] # c[i]}
PermMutant(e, c) ==
  LET a == e.old
      n == Len(a)
      D == Diff(a, c)
      f == CHOOSE i \in D : \A j \in D : i <= j
      l == CHOOSE i \in D : \A j \in D : i >= j
      most(k) == Hi(k, (e.par[1] * n) \div 16)
      w == l - f + 1
      must(k) == e.rate = 16 /\ n >= k
  IN /\ IsPerm(c, a)
     /\ CASE e.kind = "Inversion" -> IF D = {} THEN ~must(2) ELSE w <= most(2) /\ \A i \in f..l : c[i] = a[f + l - i]
          [] e.kind = "Swap2" -> IF D = {} THEN ~must(2) ELSE Cardinality(D) = 2
          [] e.kind = "Swap3" -> IF D = {} THEN ~must(3) ELSE Cardinality(D) = 3
          [] e.kind = "Shuffle" -> D = {} \/ w <= most(2)
          [] e.kind = "Shift" -> IF D = {} THEN ~must(2)
                                 ELSE \E k \in 1..(w - 1) : Lo(k, w - k) <= most(1) /\ \A i \in f..l : c[i] = a[f + ((i - f + k) % w)]
MutOk(e) ==
  On("V02", \A o \in Ran(e.outs) :
    LET c == o[1] cls == o[2] chg == o[3] IN
    /\ Len(chg) = e.len /\ \A i \in 1..e.len : chg[i] \in {0, 1}
    /\ e.rate = 0 => \A i \in 1..e.len : chg[i] = 0
    /\ CASE e.enc = "perm" -> PermMutant(e, c)
         [] e.enc = "bin" -> /\ \A i \in 1..e.len : c[i] \in {0, 1}
                             /\ e.rate = 16 => \A i \in 1..e.len : chg[i] = 1
         [] OTHER -> /\ Len(cls) = e.len /\ \A i \in 1..e.len : cls[i] \in -1..1
                     /\ (e.rate = 16 /\ (e.kind = "NonUniform" => e.par[1] <= 64)) => \A i \in 1..e.len : e.wide[i] = 1 => chg[i] = 1
                     /\ (e.rate = 16 /\ e.kind = "Boundary") => \A i \in 1..e.len : cls[i] # 0)
(* ---------------- what candidates remember ---------------- *)
Inherits(x, p, q) == x.e => \E y \in {p, q} : y.e /\ x.c = y.c /\ x.f = y.f
Same(x, p) == x.c = p.c /\ x.e = p.e /\ x.f = p.f
KidsOk(e) ==
  On("V03", /\ e.same /\ Inherits(e.x, e.p1, e.p2) /\ Inherits(e.y, e.p1, e.p2)
            /\ (e.pc = 0 \/ e.p1.c = e.p2.c \/ (e.user /\ ~e.ran)) => \/ Same(e.x, e.p1) /\ Same(e.y, e.p2)
                                                                      \/ Same(e.x, e.p2) /\ Same(e.y, e.p1)
            /\ e.pc = 0 => ~e.ran
            /\ (e.user /\ e.pc = 16 /\ e.p1.c # e.p2.c) => e.ran
            /\ (e.user /\ e.ran /\ e.p1.c # e.p2.c) => (<<e.x.c, e.y.c>> = e.k \/ <<e.y.c, e.x.c>> = e.k))
MutantOk(e) == On("V03", /\ e.out.e => (e.in.e /\ e.out.c = e.in.c /\ e.out.f = e.in.f)
                         /\ e.user => e.out.c = e.k)
(* ---------------- frequencies ---------------- *)
RECURSIVE Root(_, _, _)
Root(n, a, b) == IF b - a <= 1 THEN b ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN Root(n, m, b) ELSE Root(n, a, m)
RateOk(e) ==
  LET perm == e.enc = "perm"
      N == IF perm THEN e.n ELSE e.n * e.len
      m == N * e.rate
      tol == (m \div 100) * 15 + 48 * Root(N, 0, 40000)
      skip == perm /\ e.len < 4
      ok == CASE e.rate = 0 -> e.chg = 0
              [] e.kind = "Shuffle" -> 16 * e.chg <= m + tol /\ 16 * e.chg >= (m \div 10) * 4 - tol
              [] e.rate = 16 -> e.chg = N
              [] OTHER -> Abs(16 * e.chg - m) <= tol
  IN /\ On("V03", e.kind = "pc" => ok)
     /\ On("V01", e.kind = "swap" => ok)
     /\ On("V02", e.kind \notin {"pc", "swap"} => (skip \/ ok))
(* every outcome that the definition allows is among the outcomes of many calls *)
Rev(a, f, l) == [i \in 1..Len(a) |-> IF i \in f..l THEN a[f + l - i] ELSE a[i]]
Exch(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Moved(a, k, i, j) ==                                                         \* k genes from position i to position j
  LET q == SubSeq(a, 1, i - 1) \o SubSeq(a, i + k, Len(a))
  IN SubSeq(q, 1, j - 1) \o SubSeq(a, i, i + k - 1) \o SubSeq(q, j, Len(q))
Segments(n, k) == {s \in (1..n) \X (1..n) : s[1] <= s[2] /\ s[2] - s[1] < k}
Orders(a, f, l) == {[i \in 1..Len(a) |-> IF i \in f..l THEN p[i] ELSE a[i]] : p \in {q \in [f..l -> Seg(a, f, l)] : \A i, j \in f..l : q[i] = q[j] => i = j}}
MustMutate(e) ==
  LET a == e.p1 n == Len(e.p1) most(k) == Lo(n, Hi(k, (e.par[1] * n) \div 16))
  IN CASE n < 2 -> {a}
       [] e.kind = "Inversion" -> {Rev(a, s[1], s[2]) : s \in {x \in Segments(n, most(2)) : x[1] < x[2]}}
       [] e.kind = "Swap2" -> {Exch(a, s[1], s[2]) : s \in {x \in Segments(n, n) : x[1] < x[2]}}
       [] e.kind = "Shift" -> {Moved(a, m[1], m[2], m[3]) : m \in {x \in (1..Lo(most(1), n - 1)) \X (1..n) \X (1..n) : x[2] # x[3] /\ x[2] + x[1] <= n + 1 /\ x[3] + x[1] <= n + 1}}
       [] e.kind = "Shuffle" -> UNION {Orders(a, s[1], s[2]) : s \in Segments(n, most(2))}
       [] OTHER -> {}
MustCross(e) ==                                                              \* pairs, in some order
  LET a == e.p1 b == e.p2 n == Len(e.p1)
      both(I) == {Swapped(a, b, I), Swapped(b, a, I)}
      ranges(K(_, _, _, _)) == {{K(a, b, s[1], s[2]), K(b, a, s[1], s[2])} : s \in Segments(n, n - 1)}
      after(P) == {i \in 1..n : Cardinality({p \in P : p < i}) % 2 = 1}      \* exchanged behind an odd number of points
  IN CASE e.enc = "perm" /\ n < 2 -> {{a, b}}
       [] e.kind = "Order1" -> ranges(Order1)
       [] e.kind = "Order2" -> ranges(Order2)
       [] e.kind = "PMX" -> ranges(Pmx)
       [] e.kind = "Position" -> {{Position(a, b, I), Position(b, a, I)} : I \in SUBSET (1..n) \ {{}, 1..n}}
       [] e.kind = "SinglePoint" -> {both(after({p})) : p \in 0..(n - 1)}
       [] e.kind = "TwoPoint" -> {both(after(s)) : s \in {{p, q} : p \in 0..n, q \in 0..n}}
       [] e.kind = "NPoint" -> {both(after(P)) : P \in {Q \in SUBSET (1..(n - 1)) : Cardinality(Q) = e.par[1]}}
       [] e.kind = "Uniform" -> {both(I) : I \in SUBSET (1..n)}
       [] OTHER -> {}
CoverOk(e) ==
  LET got == Ran(e.outs) IN
  IF e.mut THEN On("V02", /\ MustMutate(e) \subseteq {o[1] : o \in got}
                          /\ (e.kind = "Swap3" /\ Len(e.p1) >= 3) => {D \in SUBSET (1..Len(e.p1)) : Cardinality(D) = 3} \subseteq {Diff(e.p1, o[1]) : o \in got})
  ELSE On("V01", MustCross(e) \subseteq {{o[1], o[2]} : o \in got})
Independent(n, q) == q = <<0, 0, 0, 0>> \/ \A i \in 1..4 : Abs(4 * q[i] - n) <= 14 * Root(n, 0, 40000)
JointOk(e) == LET ok == Independent(e.n, e.q) /\ Independent(e.n, e.z) IN IF e.mut THEN On("V02", ok) ELSE On("V01", ok)
(* generated candidates (G10): all cells of a table of q counts that can occur are equally likely; tolerance 6.3 standard deviations *)
Even(q, I, n) == LET k == Cardinality(I) IN \A i \in DOMAIN q : IF i \in I THEN Abs((k * q[i]) - n) <= 1 + Root(40 * n * (k - 1), 0, 40000) ELSE q[i] = 0
Fact(n) == IF n = 2 THEN 2 ELSE IF n = 3 THEN 6 ELSE 24
Gen0Ok(e) ==
  LET perm == e.enc = "perm" IN
  /\ ~e.bad
  /\ Even(e.one, 1..e.vi, e.n)
  /\ Even(e.two, IF e.same THEN {(((a - 1) * e.vi) + a) : a \in 1..e.vi} ELSE IF perm THEN {(((a - 1) * e.vj) + b) : <<a, b>> \in {p \in (1..e.vi) \X (1..e.vj) : p[1] # p[2]}} ELSE 1..(e.vi * e.vj), e.n)
  /\ Even(e.next, 1..(e.vi * e.vi), e.n \div 2) /\ Even(e.lag, 1..(e.vi * e.vj), e.n \div 2)      \* candidates are independent of each other
  /\ (perm /\ e.len <= 4 => Len(e.whole) = Fact(e.len) /\ Even(e.whole, DOMAIN e.whole, e.n))
Xos == {"Arithmetic", "BLXa", "Wright"}
HistOk(e) ==
  LET ok == /\ e.h[9] = 0 /\ e.h[10] = 0
            /\ \A i \in 1..8 : (8 * e.h[i] - e.n) * (8 * e.h[i] - e.n) <= 36 * 7 * e.n
  IN On("V01", e.kind \in Xos => ok) /\ On("V02", e.kind \notin Xos => ok)
SbxOk(e) == On("V01", /\ \A i \in 1..2 : Abs(2 * e.out[i] - e.n) <= 6 * Root(e.n, 0, 40000)
                      /\ e.far[2] > e.far[1]
                      /\ \A i \in DOMAIN e.low : Abs(e.low[i] - e.up[i]) <= 6 + (6 * Root(e.low[i] + e.up[i], 0, 40000)))
(* ---------------- kernels with given points ---------------- *)
Points(q, i) == Cardinality({k \in DOMAIN q : q[k] < i})                     \* crossover points before the i-th gene
KernOk(e) == On("V01",
  LET a == e.a b == e.b n == Len(e.a) c == e.out[1]
      both(I) == e.out = <<Swapped(a, b, I), Swapped(b, a, I)>> \/ e.out = <<Swapped(b, a, I), Swapped(a, b, I)>>
  IN /\ e.same /\ \A x \in Ran(e.out) : Len(x) = n
     /\ CASE e.kind = "Order1" -> c = Order1(a, b, e.par[1], e.par[2])
          [] e.kind = "Order2" -> c = Order2(a, b, e.par[1], e.par[2])
          [] e.kind = "PMX" -> c = Pmx(a, b, e.par[1], e.par[2])
          [] e.kind = "Position" -> c = Position(a, b, Ran(e.par))
          [] e.kind = "Cycle" -> both(CycleSet(a, b))
          [] e.kind = "Edge" -> IsPerm(c, a)
          [] OTHER -> both({i \in 1..n : Points(e.par, i) % 2 = 1}))
EdgesOk(e) == On("V01", 3 * e.kept >= 2 * e.all)
(* ---------------- whole runs ---------------- *)
Valid(r, g) ==
  /\ Len(g) = r.len
  /\ CASE r.enc = "bin" -> \A i \in DOMAIN g : g[i] \in {0, 1}
       [] r.enc = "perm" -> Ran(g) = 0..(r.len - 1)
       [] OTHER -> \A i \in DOMAIN g : /\ g[i] \in -1..1
                                       /\ r.eq[i] = 1 => g[i] = -1
If(b, s) == IF b THEN {s} ELSE {}
Step(s, e) ==
  CASE e.op = "xo" -> If(XoOk(e), s)
    [] e.op = "mut" -> If(MutOk(e), s)
    [] e.op = "kids" -> If(KidsOk(e), s)
    [] e.op = "mutant" -> If(MutantOk(e), s)
    [] e.op = "rate" -> If(RateOk(e), s)
    [] e.op = "hist" -> If(HistOk(e), s)
    [] e.op = "sbx" -> If(SbxOk(e), s)
    [] e.op = "cover" -> If(CoverOk(e), s)
    [] e.op = "joint" -> If(JointOk(e), s)
    [] e.op = "gen0" -> If(On("G10", Gen0Ok(e)), s)
    [] e.op = "kern" -> If(KernOk(e), s)
    [] e.op = "edges" -> If(EdgesOk(e), s)
    [] e.op = "run" -> {[ph |-> "run", r |-> e]}
    [] e.op = "ch" -> IF s.ph = "run" THEN If(On("G05", Valid(s.r, e.g)), s) ELSE {}
    [] e.op = "ret" -> IF s.ph = "run" THEN {Idle} ELSE {}
    [] OTHER -> {}
=============================================================================
