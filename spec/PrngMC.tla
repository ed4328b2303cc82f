------------------------------- MODULE PrngMC -------------------------------
(* The step of Xoroshiro128+ is linear over GF(2): the matrix of its power 2^k is obtained by squaring k times.  Checked: the
   matrix stays the power of the step (on the images of every unit vector), the step is a bijection, and after 96 squarings
   the matrix applied to a state is the published jump of that state.  Also the algebra the word operations rely on. *)
EXTENDS Prng, FiniteSets, IOUtils
Unit(n) == LET w == [i \in 1..4 |-> IF i = ((n % 64) \div 16) + 1 THEN P2[n % 16] ELSE 0] IN IF n < 64 THEN <<w, Zero>> ELSE <<Zero, w>>
XX(a, b) == <<X(a[1], b[1]), X(a[2], b[2])>>
BitOf(s, n) == LET w == s[(n \div 64) + 1] k == (n % 64) IN ((w[(k \div 16) + 1] \div P2[k % 16]) % 2) = 1
Bits == [n \in 1..128 |-> n - 1]
Apply(m, v) == FoldLeft(LAMBDA acc, n : IF BitOf(v, n) THEN XX(acc, m[n]) ELSE acc, <<Zero, Zero>>, Bits)
Sq(m) == TLCEval([n \in 0..127 |-> Apply(m, m[n])])
Samples == {XoSeed(<<i, 0, 0, 0>>) : i \in 0..7} \cup {Unit(i) : i \in {0, 15, 16, 63, 64, 127}}
VARIABLES k, m
Init == k = 0 /\ m = TLCEval([n \in 0..127 |-> XoStep(Unit(n))])
Next == k < 96 /\ k' = k + 1 /\ m' = Sq(m)
Spec == Init /\ [][Next]_<<k, m>>
Steps(s, n) == FoldLeft(LAMBDA a, i : XoStep(a), s, [i \in 1..n |-> i])
(* the first powers are those of the step itself *)
Powers == k <= 6 => \A v \in Samples : Apply(m, v) = Steps(v, 2 ^ k)
JumpIsPower == k = 96 => \A v \in Samples : Apply(m, v) = Jump(v)
(* distinct unit vectors have distinct images, none of them zero *)
Injective == Cardinality({m[n] : n \in 0..127}) = 128 /\ \A n \in 0..127 : m[n] # <<Zero, Zero>>
Words == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, Gamma, M1, M2}
ASSUME \A a \in Words : /\ \A n \in 1..63 : Rotl(Rotl(a, n), 64 - n) = a /\ Word(Shl(a, n)) /\ Word(Shr(a, n))
                        /\ \A b \in Words : Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a) /\ \A c \in Words : Mul(a, Add(b, c)) = Add(Mul(a, b), Mul(a, c)) /\ Mul(Mul(a, b), c) = Mul(a, Mul(b, c))
(* reference outputs of the publications: splitmix64 of the seed 1234567, and of 0 *)
ASSUME SmNext(<<0, 0, 0, 0>>)[2] = <<52655, 31517, 43065, 57888>>                 \* e220a8397b1dcdaf ...
ASSUME SmNext(<<54919, 18, 0, 0>>)[2] = <<64645, 64264, 53271, 22942>>             \* 6457827717110365317
=============================================================================
