-------------------------------- MODULE Range --------------------------------
(* The range algorithms, callable wrappers, scope guards and vector functions, each by its definition.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANT Props
On(p, c) == (p \in Props) => c
Abs(x) == IF x < 0 THEN -x ELSE x
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
N(P(_), q) == Cardinality({i \in DOMAIN q : P(q[i])})
IsPerm(I, n) == Len(I) = n /\ ToSet(I) = 0..(n - 1)
Rearr(v, w) == Len(v) = Len(w) /\ \A x \in ToSet(v) \cup ToSet(w) : N(LAMBDA y : y = x, v) = N(LAMBDA y : y = x, w)
(* ---------------- orders: v[i] \div g, ascending or descending; the first m positions are in order and before the rest ---------------- *)
ArgsortOk(e) ==
  LET n == Len(e.v)
      key == [i \in 1..n |-> (IF e.desc THEN -1 ELSE 1) * (e.v[i] \div e.g)]
      k == [i \in 1..n |-> key[e.out[i] + 1]]
  IN /\ IsPerm(e.out, n)
     /\ \A i \in 2..e.m : k[i - 1] <= k[i]
     /\ e.m > 0 => \A i \in (e.m + 1)..n : k[e.m] <= k[i]
LowerOk(e) == e.pos = N(LAMBDA y : y < e.x, e.v) /\ e.dpos = N(LAMBDA y : y > e.x, e.d)
DedupOk(e) == ToSet(e.out) = ToSet(e.v) /\ \A i \in 2..Len(e.out) : e.out[i - 1] < e.out[i]
ExtOk(e) ==
  LET n == Len(e.v) t == [i \in 1..n |-> IF e.neg THEN -e.v[i] ELSE e.v[i]]
      first(x) == CHOOSE i \in 1..n : t[i] = x /\ \A j \in 1..(i - 1) : t[j] # x
      last(x) == CHOOSE i \in 1..n : t[i] = x /\ \A j \in (i + 1)..n : t[j] # x
      mx == CHOOSE x \in ToSet(t) : \A y \in ToSet(t) : y <= x
      mn == CHOOSE x \in ToSet(t) : \A y \in ToSet(t) : y >= x
  IN /\ e.max = first(mx) - 1 /\ e.min = first(mn) - 1 /\ e.amax = first(mx) - 1 /\ e.amin = first(mn) - 1
     /\ e.ramax = last(mx) - 1 /\ e.ramin = last(mn) - 1        \* through reverse iterators: the first one met is the last one of the range
Best(q, up) == CHOOSE x \in ToSet(q) : \A y \in ToSet(q) : IF up THEN y <= x ELSE y >= x
MmOk(e) == \A k \in 1..3 : e.max[k] = Best(SubSeq(e.v, 1, k + 1), TRUE) /\ e.min[k] = Best(SubSeq(e.v, 1, k + 1), FALSE)
(* ---------------- random rearrangements ---------------- *)
PshufOk(e) == Rearr(e.v, e.out) /\ (e.m = 0 => e.v = e.out)
RECURSIVE Fall(_, _)
Fall(k, m) == IF m = 0 THEN 1 ELSE k * Fall(k - 1, m - 1)
PfreqOk(e) == LET f == Fall(e.k, e.m) x == e.n \div f                         \* every arrangement of the first m equally often
              IN Len(e.counts) = f /\ \A i \in DOMAIN e.counts : (e.counts[i] - x) * (e.counts[i] - x) <= 49 * x
PplaceOk(e) == LET x == e.n \div e.k                                       \* every element in every shuffled position equally often
               IN Len(e.at) = e.m /\ \A i \in DOMAIN e.at : Len(e.at[i]) = e.k /\ \A j \in DOMAIN e.at[i] : (e.at[i][j] - x) * (e.at[i][j] - x) <= 49 * x
(* ---------------- searches ---------------- *)
Holds(e, x) == CASE e.k = "eq" -> x = e.a [] e.k = "ne" -> x # e.a [] e.k = "gt" -> x > e.a [] e.k = "ge" -> x >= e.a
                 [] e.k = "lt" -> x < e.a [] e.k = "le" -> x <= e.a [] e.k = "bt" -> e.a <= x /\ x <= e.b
First(v, P(_)) == IF \E i \in DOMAIN v : P(v[i]) THEN (CHOOSE i \in DOMAIN v : P(v[i]) /\ \A j \in 1..(i - 1) : ~P(v[j])) - 1 ELSE -1
PredOk(e) ==
  LET P(x) == Holds(e, x) IN
  /\ e.all = SelectSeq(e.v, P) /\ e.idx = First(e.v, P)
  /\ e.idxs = [i \in 1..Len(SelectSeq([j \in DOMAIN e.v |-> j], LAMBDA j : P(e.v[j]))) |-> SelectSeq([j \in DOMAIN e.v |-> j], LAMBDA j : P(e.v[j]))[i] - 1]
FindOk(e) == e.in = (e.a \in ToSet(e.v)) /\ e.idx = First(e.v, LAMBDA x : x = e.a)
Erase1Ok(e) == LET k == First(e.v, LAMBDA x : x = e.a) IN
  e.same /\ e.ret = (k >= 0) /\ e.out = IF k < 0 THEN e.v ELSE SubSeq(e.v, 1, k) \o SubSeq(e.v, k + 2, Len(e.v))
ElemOk(e) == e.min = [i \in DOMAIN e.v |-> Lo(e.v[i], e.x[i])] /\ e.max = [i \in DOMAIN e.v |-> Hi(e.v[i], e.x[i])]
SelectOk(e) == e.out = [k \in DOMAIN e.i |-> e.v[e.i[k] + 1]] /\ e.moved = [k \in DOMAIN e.j |-> e.v[e.j[k] + 1]] /\ e.copied = e.out /\ e.left = e.v
Fn(e, x) == CASE e.f = "mul" -> x * e.a [] e.f = "div" -> x \div e.a [] e.f = "add" -> x + e.a [] e.f = "sub" -> x - e.a [] e.f = "mad" -> (e.a * x) + e.b
MapOk(e) == LET w == [i \in DOMAIN e.v |-> Fn(e, e.v[i])] IN e.out = w /\ e.boxed = w /\ e.arout = [i \in DOMAIN e.ar |-> Fn(e, e.ar[i])]
ModOk(e) == LET nx == (e.x + 1) % e.m pv == (e.x + e.m - 1) % e.m IN e.next = nx /\ e.inc = nx /\ e.prev = pv /\ e.dec = pv
IotaOk(e) == e.out = [i \in 1..e.n |-> e.first + i - 1]
Pow2(k) == 2^k
BitsOk(e) ==
  LET half(ones) == IF ones = 16 THEN 65535 ELSE Pow2(ones) - 1                \* the lowest ones of sixteen bits
      clip(x) == Hi(0, Lo(16, x))
  IN /\ e.bits = [i \in 1..8 |-> (e.x \div Pow2(i - 1)) % 2] /\ e.msb = (e.x >= 128) /\ e.lsb = (e.x % 2 = 1)
     /\ e.right = <<half(clip(e.n - 16)), half(clip(e.n))>>
     /\ e.left = <<65535 - half(clip(16 - e.n)), 65535 - half(clip(32 - e.n))>>
     /\ e.block = <<255, 0>>
(* ---------------- callables: the id and the number of calls of what a wrapper holds (0: nothing); references hold 7 or 8 ---------------- *)
C0 == [f |-> [i \in 1..3 |-> <<0, 0>>], r |-> <<0, 0>>, own |-> <<0, 0>>]
Call(s, e) ==   \* what the event makes of s, and what it returns
  CASE e.op = "fset" -> <<[s EXCEPT !.f[e.i] = <<e.ret, 0>>], e.ret>>
    [] e.op = "fmove" -> <<[s EXCEPT !.f[e.i] = s.f[e.j], !.f[e.j] = <<0, 0>>], -1>>
    [] e.op = "fswap" -> <<[s EXCEPT !.f[e.i] = s.f[e.j], !.f[e.j] = s.f[e.i]], -1>>
    [] e.op = "fcall" -> IF e.a = 13 THEN <<s, -13>> ELSE <<[s EXCEPT !.f[e.i][2] = @ + 1], (1000 * s.f[e.i][1]) + (10 * (s.f[e.i][2] + 1)) + e.a>>
    [] e.op = "fbad" -> <<s, -14>>                                            \* a target that cannot be stored: nothing changes
    [] e.op = "fnull" -> <<[s EXCEPT !.f[e.i] = <<0, 0>>], -1>>
    [] e.op = "rset" -> <<[s EXCEPT !.r[e.k] = e.w], -1>>
    [] e.op = "rcopy" -> <<[s EXCEPT !.r[e.k] = s.r[e.w]], -1>>
    [] e.op = "rcall" -> LET w == s.r[e.k] IN IF e.a = 13 THEN <<s, -13>> ELSE <<[s EXCEPT !.own[w] = @ + 1], (1000 * (w + 6)) + (10 * (s.own[w] + 1)) + e.a>>
CSt(s) == [i \in 1..5 |-> IF i <= 3 THEN (IF s.f[i][1] # 0 THEN 1 ELSE 0) ELSE (IF s.r[i - 3] # 0 THEN 1 ELSE 0)]
CLive(s) == 2 + N(LAMBDA x : x[1] # 0, s.f)                                   \* every held callable exactly once, and the two that are referred to
GuardsOk(e) == e.before = <<>> /\ e.thrown = 1
               /\ e.log = SelectSeq([i \in 1..Len(e.rel) |-> Len(e.rel) - i], LAMBDA i : e.rel[i + 1] = 0)
RestoreOk(e) == e.x = e.x0 /\ e.same /\ e.kept = 1
(* ---------------- vectors ---------------- *)
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Dot(p, q) == Sum([i \in DOMAIN p |-> p[i] * q[i]])
Prod(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
RootOk(o, n, k) == Abs((o * o) - (n * k * k)) <= (2 * o) + 2                   \* o = round(k * sqrt(n))
VecOk(e) ==
  LET d == [i \in DOMAIN e.p |-> e.p[i] - e.q[i]] l2 == Dot(e.l, e.l) p2 == Dot(e.p, e.p) pl == Dot(e.p, e.l) IN
  /\ e.norm >= 0 /\ RootOk(e.norm, p2, 256)
  /\ e.dist = Dot(d, d) /\ e.vol = Abs(Prod(d))
  /\ Len(e.unit) = Len(e.l)
  /\ \A i \in DOMAIN e.l : /\ e.unit[i] * e.l[i] >= 0 /\ (e.l[i] = 0 => e.unit[i] = 0)
                           /\ Abs((e.unit[i] * e.unit[i] * l2) - (e.l[i] * e.l[i] * 1048576)) <= l2 * ((2 * Abs(e.unit[i])) + 2)
  /\ Abs((e.perp * l2) - (256 * ((p2 * l2) - (pl * pl)))) <= 2 * l2
StatOk(e) ==
  LET n == Len(e.v) s == Sum(e.v) v2 == (n * Dot(e.v, e.v)) - (s * s) IN       \* n^2 times the variance
  /\ Abs((e.mean * n) - (1024 * s)) <= n
  /\ \A o \in {e.sd, e.sdm} : /\ o >= 0 /\ (v2 = 0 => o = 0)
                            /\ Abs((o * o * n * n) - (65536 * v2)) <= n * n * ((2 * o) + 2)
SinOk(e) ==
  /\ CASE e.n = 0 -> Abs(e.half - 25736) <= 1 [] e.n = 1 -> Abs(e.half - 16384) <= 1
       [] OTHER -> Abs((e.half * e.n) - (e.two * (e.n - 1))) <= 2 * e.n        \* the reduction formula over a quarter period
  /\ Abs((e.step \div 4) - ((((e.f0 + (4 * e.f1) + e.f2) \div 240) * 982) \div 1000)) <= 12      \* Simpson's rule over a step of pi / 32
VeqOk(e) == LET same == e.lens[1] = e.lens[2] /\ e.far = 0 IN e.eq = same /\ e.rev = same
(* ---------------- candidates (D09): equal exactly when their chromosomes are ---------------- *)
CeqOk(e) ==
  /\ \A i, j \in DOMAIN e.v : /\ e.eq[i][j] = (IF e.v[i] = e.v[j] THEN 3 ELSE 0)
                             /\ (~e.real /\ e.v[i] = e.v[j] => e.hash[i][j] = 1)
  /\ (~e.real => e.kept = SelectSeq([i \in DOMAIN e.v |-> i - 1], LAMBDA k : \A j \in 1..k : e.v[j] # e.v[k + 1]))     \* a set keeps the first of each
CcopyOk(e) == \A i \in DOMAIN e.st : e.st[i] = e.was
ChashOk(e) == 4 * e.distinct >= 3 * e.n                  \* the hash tells most different candidates apart
(* ---------------- *)
If(b, s) == IF b THEN {s} ELSE {}
Pure(e) ==
  CASE e.op = "argsort" -> On("D07", ArgsortOk(e)) [] e.op = "lower" -> On("D07", LowerOk(e)) [] e.op = "dedup" -> On("D07", DedupOk(e))
    [] e.op = "ext" -> On("D07", ExtOk(e)) [] e.op = "mm" -> On("D07", MmOk(e)) [] e.op = "pshuf" -> On("D07", PshufOk(e)) [] e.op = "pfreq" -> On("D07", PfreqOk(e)) [] e.op = "pplace" -> On("D07", PplaceOk(e))
    [] e.op = "pred" -> On("D07", PredOk(e)) [] e.op = "find" -> On("D07", FindOk(e)) [] e.op = "erase1" -> On("D07", Erase1Ok(e)) [] e.op = "elem" -> On("D07", ElemOk(e))
    [] e.op = "select" -> On("D07", SelectOk(e)) [] e.op = "map" -> On("D07", MapOk(e)) [] e.op = "mod" -> On("D07", ModOk(e)) [] e.op = "iota" -> On("D07", IotaOk(e))
    [] e.op = "range" -> On("D07", e.len = e.hi - e.lo /\ e.wide) [] e.op = "bits" -> On("D07", BitsOk(e))
    [] e.op = "guards" -> On("D08", GuardsOk(e)) [] e.op = "restore" -> On("D08", RestoreOk(e))
    [] e.op = "vec" -> On("P03", VecOk(e)) [] e.op = "stat" -> On("P03", StatOk(e)) [] e.op = "sinpow" -> On("P03", SinOk(e)) [] e.op = "veq" -> On("P03", VeqOk(e))
    [] e.op = "ceq" -> On("D09", CeqOk(e)) [] e.op = "ccopy" -> On("D09", CcopyOk(e)) [] e.op = "chash" -> On("D09", ChashOk(e))
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.op = "cstart" -> If(On("D08", e.st = CSt(C0) /\ e.live = 2), C0)
    [] e.op = "cend" -> If(On("D08", e.live = 0), s)
    [] e.op \in {"fset", "fmove", "fswap", "fcall", "fnull", "fbad", "rset", "rcopy", "rcall"} ->
         LET c == Call(s, e) IN If(On("D08", e.ret = c[2] /\ e.st = CSt(c[1]) /\ e.live = CLive(c[1])), c[1])
    [] OTHER -> If(Pure(e), s)
=============================================================================
