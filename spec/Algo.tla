-------------------------------- MODULE Algo --------------------------------
(* The algorithms: replacement, selection, sorting into fronts, NSGA-II, NSGA-III, reference directions.           *)
(* A candidate is a number; fit[c] is its fitness vector.                                                            *)
EXTENDS Moo, TLC
CONSTANT Props
On(p, c) == (p \in Props) => c
Ran(q) == {q[i] : i \in DOMAIN q}
Distinct(q) == Cardinality(Ran(q)) = Len(q)
(* ---------------- sets of fitness vectors (P01, A03, P02 nadir) ---------------- *)
Zero(q) == {q[i] + 1 : i \in DOMAIN q}
SortedRanks(nd) == \A i \in 1..(Len(nd) - 1) : nd[i][2] <= nd[i + 1][2]
NdOk(nd, m, dep) == /\ Len(nd) = Len(m) /\ {nd[i][1] + 1 : i \in DOMAIN nd} = DOMAIN m
                    /\ SortedRanks(nd) /\ \A i \in DOMAIN nd : nd[i][2] = dep[nd[i][1] + 1]
Cmp(f, g, t) == IF Worse(f, g, t) THEN -1 ELSE IF Worse(g, f, t) THEN 1 ELSE 0
SetOk(e) ==
  LET m == e.m
      t == e.tol
      n == Len(m)
  IN /\ On("P01", \A i, j \in 1..n : /\ e.cmp[i][j] = Cmp(m[i], m[j], t)
                                     /\ e.lt[i][j] = Worse(m[i], m[j], t))
     /\ On("P01", \A x \in Ran(e.sc) : LET a == x[1] b == x[2] IN     \* all forms of the scalar comparison
                    x[3] = <<IF Less(a, b, t) THEN -1 ELSE IF Less(b, a, t) THEN 1 ELSE 0, IF Eq(a, b, t) THEN 1 ELSE 0, IF Less(a, b, t) THEN 1 ELSE 0,
                             IF Less(b, a, t) THEN 1 ELSE 0, IF Less(b, a, t) THEN 0 ELSE 1, IF Less(a, b, t) THEN 0 ELSE 1>>)
     /\ (Classed(m, t) =>
          LET f == ParetoFront(m, t)
              nad == [k \in DOMAIN m[1] |-> Min({m[i][k] : i \in f})]
          IN /\ On("P01", \A x \in Ran(e.fronts) : Zero(x) = f /\ Distinct(x))
             /\ On("P02", n > 0 => LET N(v) == Len(v) = Len(m[1]) /\ \A k \in DOMAIN v : Eq(v[k], nad[k], t) IN N(e.nadir) /\ N(e.fnadir))
             /\ On("A03", n > 0 => LET d == Depth(m, t) IN \A x \in Ran(e.nd) : NdOk(x, m, d)))
(* nested settings of the tolerances: a stack, whose top (or the default, -1) is in force *)
(* a step: 0 = set, 1 = end of the innermost setting, 2 = nothing; then the new values (absolute in quarters, relative in eighths) and what is in force *)
ScopesOk(e) ==
  On("P01", LET Next(st, x) == IF x[1] = 0 THEN Append(st, <<x[2], x[3]>>) ELSE IF x[1] = 1 THEN SubSeq(st, 1, Len(st) - 1) ELSE st
                Top(st) == IF st = <<>> THEN <<-1, -1>> ELSE st[Len(st)]
                F(acc, x) == LET st == Next(acc[1], x)
                                 t == Top(st)
                                 u == IF t[1] = -1 THEN T0 ELSE <<t[1], t[2], 8>>          \* values in quarters
                             IN <<st, acc[2] /\ x[4] = t[1] /\ x[5] = t[2]
                                     /\ x[6] = (IF Eq(4, 5, u) THEN 1 ELSE 0) /\ x[7] = (IF Less(16, 32, u) THEN 1 ELSE 0)
                                     /\ x[8] = (IF t[1] # 0 \/ t[2] >= 8 THEN 1 ELSE 0)>>
            IN FoldLeft(F, <<<<>>, TRUE>>, e.steps)[2])
(* ---------------- merging pareto sets (P02) ---------------- *)
(* l, r: sequences of <<id, fitness>>; out: the merged set *)
MergeOk(e) ==
  On("P02", LET keepL == {i \in DOMAIN e.l : \A j \in DOMAIN e.r : ~Dom(e.r[j][2], e.l[i][2])}
                keepR == {j \in DOMAIN e.r : \A i \in DOMAIN e.l : ~Dom(e.l[i][2], e.r[j][2])}
            IN /\ Len(e.out) = Cardinality(keepL) + Cardinality(keepR)
               /\ Ran(e.out) = {e.l[i] : i \in keepL} \cup {e.r[j] : j \in keepR})
(* ---------------- reference directions and direction search (A06) ---------------- *)
Dot(a, b) == SumS([k \in DOMAIN a |-> a[k] * b[k]])
Count(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
(* A subset is spread out: no point that was left out is farther from it than its points are from each other (coordinates in 1/1000). *)
Coarse(q) == [i \in DOMAIN q |-> [k \in DOMAIN q[i] |-> q[i][k] \div 1000]]
DistSq(a, b) == SumS([k \in DOMAIN a |-> (a[k] - b[k]) * (a[k] - b[k])])
SpreadOk(pts, from) ==
  (Len(pts) >= 2 /\ Len(pts) * Len(from) <= 6000) =>
    LET p == TLCEval(Coarse(pts)) c == TLCEval(Coarse(from))
        sep == Min(UNION {{DistSq(p[i], p[j]) : j \in 1..(i - 1)} : i \in DOMAIN p})
    IN \A x \in Ran(c) : \E i \in DOMAIN p : DistSq(x, p[i]) <= (sep + sep \div 10) + 64
LinesOk(e) == On("A06", /\ Len(e.pts) = e.n
                        /\ \A p \in Ran(e.pts) : /\ Len(p) = e.d
                                                 /\ \A k \in DOMAIN p : p[k] >= 0 /\ p[k] <= 1000001
                                                 /\ Abs(SumS(p) - 1000000) <= e.d + 2
                        /\ ~e.negative
                        /\ ("from" \in DOMAIN e => \A p \in Ran(e.pts) : Count(p, e.pts) <= Count(p, e.from))
                        /\ ("from" \in DOMAIN e => SpreadOk(e.pts, e.from)))
ConeOk(e) == On("A06", /\ e.size = Len(e.pts)
                       /\ \A q \in Ran(e.qs) :
                            IF e.pts = <<>> THEN q[2] = "none"
                            ELSE /\ q[2] = "some" /\ q[3] \in Ran(e.pts)
                                 /\ LET b == Max({Dot(p, q[1]) : p \in Ran(e.pts)}) IN Dot(q[3], q[1]) = b /\ q[4] = b)
(* ---------------- frequencies of selections (A02) ---------------- *)
(* Weights as integers; counts of N draws may deviate by at most `tol` from the expectation. *)
Sorted(f) == SortSeq(f, <)
RECURSIVE Pow(_, _)
Pow(b, x) == IF x = 0 THEN 1 ELSE b * Pow(b, x - 1)
RECURSIVE ISqrt(_, _)
ISqrt(x, r) == IF r * r >= x THEN r ELSE ISqrt(x, r + 1)
(* lo/hi: bounds of the probability of every candidate, as <<lo, hi, total>> *)
Within(c, w, n, tol) == /\ c * w[3] >= n * w[1] - tol * w[3] /\ c * w[3] <= n * w[2] + tol * w[3]
                        /\ (w[2] = 0 => c = 0) /\ (w[1] = w[3] => c = n)
Exact(ws) == LET s == SumS(ws) IN [i \in DOMAIN ws |-> IF s = 0 THEN <<1, 1, Len(ws)>> ELSE <<ws[i], ws[i], s>>]
Below(f, x) == Cardinality({i \in DOMAIN f : f[i] < x})
Upto(f, x) == Cardinality({i \in DOMAIN f : f[i] <= x})
WeightsOf(e) ==
  LET f == e.f
      n == Len(f)
  IN CASE e.m = "tournament" ->
            [i \in 1..n |-> <<Pow(Upto(f, f[i]), e.p) - Pow(Below(f, f[i]), e.p), Pow(Upto(f, f[i]), e.p) - Pow(Below(f, f[i]), e.p), Pow(n, e.p)>>]
       [] e.m = "roulette" -> Exact(f)
       [] e.m = "rank" -> \* weights in units of 1/(n-1): from min to max over the positions; equal candidates share their positions in some order
            LET m == IF n = 1 THEN 1 ELSE n - 1
                W(pos) == e.lo * (m - pos) + e.hi * pos
                tot == IF n = 1 THEN 1 ELSE SumS([i \in 1..n |-> W(i - 1)])
            IN [i \in 1..n |-> IF n = 1 THEN <<1, 1, 1>> ELSE IF tot = 0 THEN <<1, 1, n>> ELSE <<W(Below(f, f[i])), W(Upto(f, f[i]) - 1), tot>>]
       [] e.m = "sigma" -> \* scale = a/b; deviation: n*n*var = q*q
            LET s == SumS(f)
                q == ISqrt(n * SumS([i \in 1..n |-> f[i] * f[i]]) - s * s, 0)
            IN IF q = 0 THEN [i \in 1..n |-> <<1, 1, n>>]
               ELSE Exact([i \in 1..n |-> LET w == e.a * q + e.b * (n * f[i] - s) IN IF w < 0 THEN 0 ELSE w])
       [] e.m = "boltzmann" -> LET lo == Min(Ran(f)) r == Max(Ran(f)) - lo IN \* temperature 1/(k ln 2)
            Exact([i \in 1..n |-> IF r = 0 THEN 1 ELSE Pow(2, (e.k * (f[i] - lo)) \div r)])
(* the tournament's probability is that of the group of equal candidates *)
SelOk(e) ==
  LET f == e.f
      n == Len(f)
      same(i) == {j \in 1..n : f[j] = f[i]}
      cnt(S) == FoldSet(LAMBDA j, a : a + e.cnt[j], 0, S)
  IN On("A02", /\ Len(e.cnt) = n /\ SumS(e.cnt) = e.n
               /\ (e.m # "negroulette" =>
                     LET w == WeightsOf(e) IN
                     IF e.m = "tournament" THEN \A i \in 1..n : Within(cnt(same(i)), w[i], e.n, e.tol)
                     ELSE \A i \in 1..n : Within(e.cnt[i], w[i], e.n, e.tol))
               (* never less likely than a worse one; as likely as an equal one *)
               /\ (e.m \notin {"rank", "tournament"} => \A i, j \in 1..n : f[i] >= f[j] => e.cnt[i] >= e.cnt[j] - 2 * e.tol)
               /\ (e.m \in {"rank", "tournament"} => \A i, j \in 1..n : f[i] > f[j] => e.cnt[i] >= e.cnt[j] - 2 * e.tol)
               /\ (e.m = "tournament" => \A i, j \in 1..n : f[i] = f[j] => Abs(e.cnt[i] - e.cnt[j]) <= 2 * e.tol))
(* the default temperature of the Boltzmann selection: nearly equal chances at first, never rising, in the end almost only the better one *)
CoolOk(e) == On("A02", /\ Len(e.best) = e.gens
                       /\ \A i \in 1..(Len(e.best) - 1) : e.best[i + 1] >= e.best[i] - 2 * e.tol
                       /\ 100 * e.best[1] <= 60 * e.n /\ 100 * e.best[Len(e.best)] >= 85 * e.n)
(* ---------------- runs: the next population (A01, A04, A05) ---------------- *)
(* crowding distances of the members of a front L (a set of candidates), as <<infinite?, sum>> with a common denominator, for
   one order per objective *)
Orders(L, fit, k) ==
  LET vs == {fit[c][k] : c \in L} IN
  IF Cardinality(vs) = Cardinality(L) THEN {SetToSortSeq(L, LAMBDA a, b : fit[a][k] < fit[b][k])}
  ELSE {o \in SetToSeqs(L) : \A i \in 1..(Len(o) - 1) : fit[o[i]][k] <= fit[o[i + 1]][k]}
Tied(L, fit) == \E a, b \in L : a # b /\ \E k \in DOMAIN fit[a] : fit[a][k] = fit[b][k]
Crowd(L, fit, os) ==
  LET m == Len(os)
      w == [k \in 1..m |-> MaxI(1, fit[os[k][Len(os[k])]][k] - fit[os[k][1]][k])]
      pos(k, c) == CHOOSE i \in DOMAIN os[k] : os[k][i] = c
      part(k, c) == (fit[os[k][pos(k, c) + 1]][k] - fit[os[k][pos(k, c) - 1]][k]) * ProdS([j \in 1..m |-> IF j = k THEN 1 ELSE w[j]])
  IN [c \in L |-> IF \E k \in 1..m : pos(k, c) \in {1, Len(os[k])} THEN 1000000000 ELSE SumS([k \in 1..m |-> part(k, c)])]
RECURSIVE Products(_)
Products(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<o>> \o t : o \in Head(ss), t \in Products(Tail(ss))}
OrderSets(L, fit) == Products([k \in 1..Len(fit[CHOOSE c \in L : TRUE]) |-> Orders(L, fit, k)])
CrowdedBest(L, kept, fit) ==
  IF ~Tied(L, fit)
  THEN LET cd == Crowd(L, fit, [k \in 1..Len(fit[CHOOSE c \in L : TRUE]) |-> CHOOSE o \in Orders(L, fit, k) : TRUE])
       IN \A a \in kept, b \in L \ kept : cd[b] <= cd[a]
  ELSE IF Cardinality(L) <= 4 /\ ProdS([k \in 1..Len(fit[CHOOSE c \in L : TRUE]) |-> Cardinality(Orders(L, fit, k))]) <= 200
  THEN \E os \in OrderSets(L, fit) : LET cd == Crowd(L, fit, os) IN \A a \in kept, b \in L \ kept : cd[b] <= cd[a]
  ELSE LET m == Len(fit[CHOOSE c \in L : TRUE])
           ext(c) == \E k \in 1..m : fit[c][k] \in {Min({fit[x][k] : x \in L}), Max({fit[x][k] : x \in L})}
       IN \/ \A c \in kept : ext(c)                                                     \* not enough room for all extremes
          \/ \A k \in 1..m : {Min({fit[x][k] : x \in L}), Max({fit[x][k] : x \in L})} \subseteq {fit[x][k] : x \in kept}
(* the front of every candidate of a set, as a function *)
DepthOf(S, fit) ==
  LET q == SetToSeq(S)
      d == Depth([i \in DOMAIN q |-> fit[q[i]]], T0)
      at == TLCEval([c \in S |-> CHOOSE i \in DOMAIN q : q[i] = c])
  IN TLCEval([c \in S |-> d[at[c]]])
(* the last front that was not kept entirely ({} if there is none), given that no better front lost a candidate *)
FrontsOk(All, dep, kept) == \A a \in All \ kept : \A b \in kept : dep[b] <= dep[a]
LastFront(All, dep, kept) == LET out == All \ kept IN IF out = {} THEN {} ELSE LET r == Min({dep[c] : c \in out}) IN IF \E c \in kept : dep[c] = r THEN {c \in All : dep[c] = r} ELSE {}
(* ---- NSGA-III: reference state [ideal, ext, sure] ---- *)
IdealOf(S, fit, old) == LET m == Len(fit[CHOOSE c \in S : TRUE]) IN [k \in 1..m |-> LET b == Max({fit[c][k] : c \in S}) IN IF old = <<>> THEN b ELSE MaxI(b, old[k])]
AsfKey(f, ideal, k) == LET others == {ideal[i] - f[i] : i \in DOMAIN f \ {k}}
                           o == Max(others)
                       IN IF o = 0 THEN ideal[k] - f[k] ELSE 1000 * o
RefUpdate(ref, S, fit) ==
  LET ideal == IdealOf(S, fit, ref.ideal)
      m == Len(ideal)
      pts == {fit[c] : c \in S} \cup Ran(ref.ext)
      best(k) == LET mn == Min({AsfKey(p, ideal, k) : p \in pts}) IN {p \in pts : AsfKey(p, ideal, k) = mn}
  IN [ideal |-> ideal, ext |-> [k \in 1..m |-> CHOOSE p \in best(k) : TRUE],
      sure |-> ref.sure /\ \A k \in 1..m : Cardinality(best(k)) = 1]
Widths(ref) == [k \in DOMAIN ref.ideal |-> ref.ideal[k] - Min({p[k] : p \in Ran(ref.ext)})]
(* normalised fitness scaled to integers *)
Norm(f, ref) == LET w == Widths(ref) IN [k \in DOMAIN f |-> (ref.ideal[k] - f[k]) * ProdS([j \in DOMAIN f |-> IF j = k THEN 1 ELSE w[j]])]
(* the directions that are closest to p: maximal (p.l)/|l| *)
Closest(p, lines) == {i \in DOMAIN lines : \A j \in DOMAIN lines : Dot(p, lines[i]) * Dot(p, lines[i]) * Dot(lines[j], lines[j]) >= Dot(p, lines[j]) * Dot(p, lines[j]) * Dot(lines[i], lines[i])}
DistKey(p, l) == Dot(p, p) * Dot(l, l) - Dot(p, l) * Dot(p, l)
NicheOk(All, dep, L, kept, fit, ref, lines) ==
  IF ~ref.sure \/ \E k \in DOMAIN ref.ideal : Widths(ref)[k] = 0 THEN TRUE
  ELSE LET rel == {c \in All : c \in L \/ \A x \in L : dep[c] < dep[x]}
           cl == TLCEval([c \in rel |-> Closest(Norm(fit[c], ref), lines)])
       IN IF \E c \in rel : Cardinality(cl[c]) # 1 THEN TRUE
          ELSE LET of(c) == CHOOSE i \in cl[c] : TRUE
                   dk == TLCEval([c \in L |-> DistKey(Norm(fit[c], ref), lines[of(c)])])
                   cnt(i) == Cardinality({c \in rel \ L : of(c) = i})
                   kin == kept \cap L
                   K(i) == Cardinality({c \in kin : of(c) = i})
                   A(i) == Cardinality({c \in L : of(c) = i})
                   D(c) == dk[c]
               IN /\ \A i, j \in DOMAIN lines : K(i) > 0 /\ K(j) < A(j) => cnt(i) + K(i) - 1 <= cnt(j) + K(j)
                  /\ \A a \in kin, b \in L \ kin : of(a) = of(b) => D(a) <= D(b)
(* ---- the events of a run ---- *)
Idle == [ph |-> "idle", r |-> [alg |-> "none"], fit |-> <<>>, pop |-> <<>>, ref |-> [ideal |-> <<>>, ext |-> <<>>, sure |-> TRUE]]
Better(a, b, fit) == fit[a][1] > fit[b][1]
NextOk(s, fit, kids, pop) ==
  LET P == Ran(s.pop)
      C == Ran(kids)
      All == P \cup C
      K == Ran(pop)
      n == s.r.n
  IN CASE s.r.alg = "children" -> On("A01", Distinct(pop) /\ K = C)
       [] s.r.alg = "elitism" ->
            On("A01", LET e == IF s.r.k > n THEN n ELSE s.r.k IN
                      /\ Len(pop) = n /\ Distinct(pop) /\ K \subseteq All
                      /\ Cardinality(K \cap P) = e /\ Cardinality(K \cap C) = n - e
                      /\ \A a \in K \cap P, b \in P \ K : ~Better(b, a, fit))
       [] s.r.alg = "best" ->
            On("A01", Len(pop) = n /\ Distinct(pop) /\ K \subseteq All /\ \A a \in K, b \in All \ K : ~Better(b, a, fit))
       [] s.r.alg = "nsga2" ->
            On("A04", LET dep == DepthOf(All, fit)
                          L == LastFront(All, dep, K)
                      IN /\ Len(pop) = n /\ Distinct(pop) /\ K \subseteq All /\ FrontsOk(All, dep, K)
                         /\ L # {} => CrowdedBest(L, K \cap L, fit))
       [] s.r.alg = "nsga3" ->
            On("A05", LET dep == DepthOf(All, fit)
                          L == LastFront(All, dep, K)
                      IN /\ Len(pop) = n /\ Distinct(pop) /\ K \subseteq All /\ FrontsOk(All, dep, K)
                         /\ L # {} => NicheOk(All, dep, L, K, fit, RefUpdate(s.ref, All, fit), s.r.lines))
(* binary tournaments: how many of the n*n ordered pairs select c at least / at most *)
BinOk(pop, fit, cnt, N, tol, low(_, _)) ==
  LET n == Len(pop)
      Wins(i) == Cardinality({j \in 1..n : low(i, j) = "win"})
      Open(i) == Cardinality({j \in 1..n : j # i /\ low(i, j) = "open"})
  IN /\ Len(cnt) = n /\ SumS(cnt) = N
     /\ \A i \in 1..n : Within(cnt[i], <<2 * Wins(i) + 1, 2 * Wins(i) + 2 * Open(i) + 1, n * n>>, N, tol)
     /\ SumS(cnt) = N
SelectOk(s, e, fit, pop) ==
  LET P == Ran(pop)
      dep == DepthOf(P, fit)
  IN CASE s.r.alg = "nsga2" ->
            On("A04", LET fronts == {{c \in P : dep[c] = r} : r \in {dep[c] : c \in P}}
                          cd == [L \in fronts |-> IF Tied(L, fit) THEN [c \in L |-> -1] ELSE Crowd(L, fit, [k \in 1..Len(fit[CHOOSE c \in L : TRUE]) |-> CHOOSE o \in Orders(L, fit, k) : TRUE])]
                          d(c) == cd[{x \in P : dep[x] = dep[c]}][c]
                          rel(i, j) == LET a == pop[i] b == pop[j] IN
                                       IF dep[a] < dep[b] THEN "win" ELSE IF dep[a] > dep[b] THEN "lose"
                                       ELSE IF d(a) > d(b) THEN "win" ELSE IF d(a) < d(b) THEN "lose" ELSE "open"
                      IN BinOk(pop, fit, e.cnt, e.n, e.tol, rel))
       [] s.r.alg = "nsga3" ->
            On("A05", LET ref == s.ref
                          sure == ref.sure /\ \A k \in DOMAIN ref.ideal : Widths(ref)[k] # 0
                          cl == [c \in P |-> IF sure THEN Closest(Norm(fit[c], ref), s.r.lines) ELSE {}]
                          ok == sure /\ \A c \in P : Cardinality(cl[c]) = 1
                          D(c) == DistKey(Norm(fit[c], ref), s.r.lines[CHOOSE i \in cl[c] : TRUE])
                          n == Len(pop)
                          \* 2 points for a pair that the better one always wins, 1 for a pair decided by chance
                          pts(i, j) == LET a == pop[i] b == pop[j] IN
                                       IF i = j THEN <<1, 1>>
                                       ELSE IF cl[a] # cl[b] THEN <<1, 1>>
                                       ELSE IF dep[a] < dep[b] THEN <<2, 2>> ELSE IF dep[a] > dep[b] THEN <<0, 0>>
                                       ELSE IF D(a) < D(b) THEN <<2, 2>> ELSE IF D(a) > D(b) THEN <<0, 0>> ELSE <<0, 2>>
                          lo(i) == SumS([j \in 1..n |-> pts(i, j)[1]])
                          hi(i) == SumS([j \in 1..n |-> pts(i, j)[2]])
                      IN SumS(e.cnt) = e.n /\ (ok => \A i \in 1..n : Within(e.cnt[i], <<lo(i), hi(i), n * n>>, e.n, e.tol)))
       [] OTHER -> TRUE
RunStep(s, e) ==
  CASE e.op = "run" -> IF s.ph = "idle" THEN {[Idle EXCEPT !.ph = "run", !.r = e]} ELSE {}
    [] e.op = "gen" /\ s.ph = "run" ->          \* kids: the new candidates, with their fitness in fk
       LET fit == s.fit \o e.fk
           first == s.pop = <<>>
           S == Ran(s.pop) \cup Ran(e.kids)
           ref == IF s.r.alg = "nsga3" THEN RefUpdate(s.ref, S, fit) ELSE s.ref
           t == [s EXCEPT !.fit = fit, !.pop = e.pop, !.ref = ref]
       IN IF first THEN (IF Len(e.pop) = s.r.n THEN {t} ELSE {}) ELSE IF NextOk(s, fit, e.kids, e.pop) THEN {t} ELSE {}
    [] e.op = "draws" /\ s.ph = "run" -> IF SelectOk(s, e, s.fit, s.pop) THEN {s} ELSE {}
    [] e.op = "ret" /\ s.ph = "run" ->
       LET P == Ran(s.pop)
           dep == DepthOf(P, s.fit)
       IN IF On("G06", Distinct(e.sols) /\ Ran(e.sols) = {c \in P : dep[c] = 0}) THEN {Idle} ELSE {}
    [] OTHER -> {}
Step(s, e) ==
  CASE e.op \in {"exec", "done"} -> {s}
    [] e.op = "set" -> IF SetOk(e) THEN {s} ELSE {}
    [] e.op = "scopes" -> IF ScopesOk(e) THEN {s} ELSE {}
    [] e.op = "merge" -> IF MergeOk(e) THEN {s} ELSE {}
    [] e.op = "lines" -> IF LinesOk(e) THEN {s} ELSE {}
    [] e.op = "cone" -> IF ConeOk(e) THEN {s} ELSE {}
    [] e.op = "cool" -> IF CoolOk(e) THEN {s} ELSE {}
    [] e.op = "freq" -> IF SelOk(e) THEN {s} ELSE {}
    [] OTHER -> RunStep(s, e)
=============================================================================
