-------------------------------- MODULE Rnd ---------------------------------
(* What a user may expect of the random utilities: ranges, distinct samples, frequencies.                            *)
(* Numbers of 64 bits are order preserving keys of four 16 bit limbs; frequencies are judged at six standard deviations. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Hi(a, b) == IF a > b THEN a ELSE b
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > 4 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE Lex(a, b, i + 1)
Leq(a, b) == Lex(a, b, 1) <= 0
Lt(a, b) == Lex(a, b, 1) < 0
RECURSIVE Sum(_, _)
Sum(q, i) == IF i = 0 THEN 0 ELSE q[i] + Sum(q, i - 1)
RECURSIVE Root(_, _, _)
Root(n, a, b) == IF b - a <= 1 THEN b ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN Root(n, m, b) ELSE Root(n, a, m)
Sqrt(n) == Root(n, 0, 40000)
(* x of n draws of something with probability a/b, where 0 <= a <= b: never if a = 0, always if a = b, else about n * a / b.   *)
(* n * a must be representable.                                                                                              *)
Freq(x, n, a, b) ==
  IF a = 0 THEN x = 0 ELSE IF a = b THEN x = n
  ELSE LET mean == (n * a) \div b IN Abs(x - mean) <= 6 * Sqrt(Hi(mean - ((mean \div b) * a), 1)) + 8
IntOk(e) ==
  /\ Leq(e.lo, e.mn) /\ Leq(e.mn, e.mx) /\ Leq(e.mx, e.hi)
  /\ Sum(e.h, 10) = e.n /\ e.h[9] = 0 /\ e.h[10] = 0
  /\ e.small => \A i \in DOMAIN e.c : Freq(e.c[i], e.n, 1, Len(e.c))          \* every value, the bounds included
  /\ e.wide => \A i \in 1..8 : Freq(e.h[i], e.n, 1, 8)
RealOk(e) ==
  /\ Leq(e.lo, e.mn) /\ Leq(e.mn, e.mx)
  /\ IF e.lo = e.hi THEN e.mx = e.hi ELSE Lt(e.mx, e.hi)                      \* half-open
  /\ e.h[9] = 0 /\ e.h[10] = 0
  /\ e.wide => \A i \in 1..8 : Freq(e.h[i], e.n, 1, 8)
(* averages in units of 1/256, variances in units of 1/16; the approximations of the binomial distribution are coarse  *)
BinomOk(e) ==
  LET m == 16 * e.n * e.p                                                     \* the mean in units of 1/256
      v == (e.n * e.p * (16 - e.p)) \div 16                                   \* the variance in units of 1/16
  IN /\ 0 <= e.mn /\ e.mn <= e.mx /\ e.mx <= e.n
     /\ (e.p = 0 \/ e.n = 0) => e.mx = 0
     /\ e.p = 16 => e.mn = e.n
     /\ Abs(e.avg - m) <= m \div 8 + (24 * Sqrt(16 * v)) \div Sqrt(e.cnt \div 16) + 16
     /\ (e.p \in 1..15 /\ e.n > 0) => (e.mn < e.mx /\ Abs(e.var - v) <= (2 * v) \div 5 + 4)
Distinct(q) == Cardinality({q[i] : i \in DOMAIN q}) = Len(q)
UniqOk(e) ==
  /\ e.size = e.cnt
  /\ IF e.len >= 0 THEN Len(e.off) = e.cnt /\ Distinct(e.off) /\ \A i \in DOMAIN e.off : 0 <= e.off[i] /\ e.off[i] < e.len
     ELSE Len(e.big) = e.cnt /\ Distinct(e.big) /\ \A i \in DOMAIN e.big : Leq(e.lo, e.big[i]) /\ Lt(e.big[i], e.hi)
UniqFreqOk(e) == e.h[e.len + 1] = 0 /\ \A i \in 1..e.len : Freq(e.h[i], e.n, e.cnt, e.len)
UniqWideOk(e) ==                                                            \* samples of a large range: the eighths, and single values at its ends
  LET all == e.n * e.cnt IN
  /\ e.h[9] = 0 /\ \A i \in 1..8 : Freq(e.h[i], all, 1, 8)
  /\ \A i \in DOMAIN e.edge : e.edge[i] <= 12 + (2 * all) \div (8 * e.unit)       \* all / (8 * unit) <= 1.3 expected
CdfOk(e) ==
  /\ e.c[Len(e.w) + 1] = 0
  /\ \A i \in DOMAIN e.w : IF e.w[i] = 0 THEN e.c[i] = 0 ELSE (e.den \/ Freq(e.c[i], e.n, e.w[i], e.tot))
ElemOk(e) == e.c[e.len + 1] = 0 /\ \A i \in 1..e.len : Freq(e.c[i], e.n, 1, e.len)
BoolOk(e) == (\A i \in 1..4 : Freq(e.c[i], e.n, 1, 4)) /\ Freq(e.s64, 2 * e.n - 64, 1, 2) /\ Freq(e.s63, 2 * e.n - 63, 1, 2)
Below == <<228, 1587, 5000, 8413, 9772>>                                      \* of ten thousand
NormalOk(e) == e.fin = e.n /\ IF e.zero THEN e.off = 0 ELSE \A k \in 1..5 : Freq(e.c[k], e.n, Below[k], 10000)
PoissonOk(e) == /\ e.neg = 0
                /\ Abs(e.avg - 16 * e.m) <= (24 * Sqrt(16 * e.m)) \div Sqrt(e.n \div 16) + 16
                /\ Abs(e.var - e.m) <= e.m \div 4 + 8
QuasiOk(e) == /\ e.same /\ e.inside /\ e.disc /\ e.fresh
              /\ \A i \in 1..8 : 8 * e.h[i] >= e.n \div 2                     \* an evenly spread sequence
Ok(e) ==
  CASE e.op = "int" -> IntOk(e)
    [] e.op = "real" -> RealOk(e)
    [] e.op = "binom" -> BinomOk(e)
    [] e.op = "uniq" -> UniqOk(e)
    [] e.op = "uniqfreq" -> UniqFreqOk(e)
    [] e.op = "uniqwide" -> UniqWideOk(e)
    [] e.op = "cdf" -> CdfOk(e)
    [] e.op = "elem" -> ElemOk(e)
    [] e.op = "bool" -> BoolOk(e)
    [] e.op = "normal" -> NormalOk(e)
    [] e.op = "poisson" -> PoissonOk(e)
    [] e.op = "quasi" -> QuasiOk(e)
    [] OTHER -> FALSE
Idle == [ph |-> "idle"]
Step(s, e) == IF Ok(e) THEN {s} ELSE {}
=============================================================================
