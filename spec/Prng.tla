-------------------------------- MODULE Prng --------------------------------
(* The bundled generators: Splitmix64 and Xoroshiro128+ over 64-bit words of four 16-bit limbs, least significant first. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bitwise
B == 65536
Zero == <<0, 0, 0, 0>>
Word(w) == DOMAIN w = 1..4 /\ \A i \in 1..4 : w[i] \in 0..(B - 1)
X(a, b) == TLCEval([i \in 1..4 |-> a[i] ^^ b[i]])
P2 == [k \in 0..16 |-> 2 ^ k]
Lim(a, i) == IF i \in 1..4 THEN a[i] ELSE 0
Shl(a, n) == LET q == n \div 16 r == (n % 16) IN TLCEval([i \in 1..4 |-> IF r = 0 THEN Lim(a, i - q) ELSE ((Lim(a, i - q) * P2[r]) % B) + (Lim(a, i - q - 1) \div P2[16 - r])])
Shr(a, n) == LET q == n \div 16 r == (n % 16) IN TLCEval([i \in 1..4 |-> IF r = 0 THEN Lim(a, i + q) ELSE (Lim(a, i + q) \div P2[r]) + ((Lim(a, i + q + 1) * P2[16 - r]) % B)])
Rotl(a, n) == X(Shl(a, n), Shr(a, 64 - n))
Add(a, b) == LET s1 == a[1] + b[1] s2 == a[2] + b[2] + (s1 \div B) s3 == a[3] + b[3] + (s2 \div B) s4 == a[4] + b[4] + (s3 \div B)
             IN <<s1 % B, s2 % B, s3 % B, s4 % B>>
(* product modulo 2^64, by bytes *)
Byte(a, k) == IF (k % 2) = 0 THEN a[(k \div 2) + 1] % 256 ELSE a[(k \div 2) + 1] \div 256
Mul(a, b) ==
  LET x == TLCEval([k \in 0..7 |-> Byte(a, k)])
      y == TLCEval([k \in 0..7 |-> Byte(b, k)])
      RECURSIVE Conv(_, _)
      Conv(k, i) == IF i > k THEN 0 ELSE x[i] * y[k - i] + Conv(k, i + 1)
      RECURSIVE Go(_, _, _)
      Go(k, c, acc) == IF k > 7 THEN acc ELSE LET t == Conv(k, 0) + c IN Go(k + 1, t \div 256, Append(acc, t % 256))
      r == Go(0, 0, <<>>)
  IN TLCEval([i \in 1..4 |-> r[2 * i - 1] + 256 * r[2 * i]])
(* ---- Splitmix64: <<next state, output>> ---- *)
Gamma == <<31765, 32586, 31161, 40503>>            \* 9e3779b97f4a7c15
M1 == <<58809, 7396, 18285, 48984>>                \* bf58476d1ce4e5b9
M2 == <<4587, 4913, 18875, 38096>>                 \* 94d049bb133111eb
Mix(s) == LET a == Mul(X(s, Shr(s, 30)), M1)
              b == Mul(X(a, Shr(a, 27)), M2)
          IN X(b, Shr(b, 31))
SmNext(s) == LET t == Add(s, Gamma) IN <<t, Mix(t)>>
(* ---- Xoroshiro128+: state <<s0, s1>> ---- *)
XoSeed(seed) == LET a == SmNext(seed) b == SmNext(a[1]) IN <<a[2], b[2]>>
XoOut(s) == Add(s[1], s[2])
XoStep(s) == LET x == X(s[1], s[2]) IN <<X(X(Rotl(s[1], 24), x), Shl(x, 16)), Rotl(x, 37)>>
(* advancing by 2^96 steps: the polynomial of the publication; PrngMC checks that it is that power of the step *)
JumpWords == <<<<61051, 25182, 35622, 53929>>, <<31425, 37034, 39696, 56799>>>>      \* d2a98b26625eee7b, dddf9b1090aa7ac1
JumpBit(n) == LET w == JumpWords[(n \div 64) + 1] k == (n % 64) IN ((w[(k \div 16) + 1] \div P2[k % 16]) % 2) = 1
Jump(s) == FoldLeft(LAMBDA a, n : <<XoStep(a[1]), IF JumpBit(n) THEN <<X(a[2][1], a[1][1]), X(a[2][2], a[1][2])>> ELSE a[2]>>,
                    <<s, <<Zero, Zero>>>>, [n \in 1..128 |-> n - 1])[2]
(* ---- the events: two generators of each kind ---- *)
Idle == [sm |-> <<Zero, Zero>>, xo |-> <<<<Zero, Zero>>, <<Zero, Zero>>>>]
Step(s, e) ==
  IF e.op = "init" THEN {[sm |-> <<e.w, e.w>>, xo |-> <<XoSeed(e.w), XoSeed(e.w)>>]} ELSE
  LET g == e.g
      Sm(v) == [s EXCEPT !.sm[g] = v]
      Xo(v) == [s EXCEPT !.xo[g] = v]
      eq(t) == IF e.eqs = (t.sm[1] = t.sm[2]) /\ e.eqx = (t.xo[1] = t.xo[2]) THEN {t} ELSE {}
  IN CASE e.op = "smseed" -> eq(Sm(e.w))
       [] e.op = "smnext" -> LET t == SmNext(s.sm[g]) IN IF e.w = t[2] THEN eq(Sm(t[1])) ELSE {}
       [] e.op = "smcopy" -> eq(Sm(s.sm[3 - g]))
       [] e.op = "xoseed" -> eq(Xo(XoSeed(e.w)))
       [] e.op = "xonext" -> IF e.w = XoOut(s.xo[g]) THEN eq(Xo(XoStep(s.xo[g]))) ELSE {}
       [] e.op = "xocopy" -> eq(Xo(s.xo[3 - g]))
       [] e.op = "xojump" -> eq(Xo(Jump(s.xo[g])))
       [] OTHER -> {}
=============================================================================
