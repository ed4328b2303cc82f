-------------------------------- MODULE Iter --------------------------------
(* Iterators over a sequence: an iterator is a position 0..Len(q), everything else follows from the position.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
At(q, p) == q[p + 1]
Legal(q, p) == p \in 0..Len(q)
Rel(a, b) == LET T(x) == IF x THEN 1 ELSE 0 IN <<a - b, T(a = b), T(a # b), T(a < b), T(a <= b), T(a > b), T(a >= b)>>
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Find(q, v) == IF \E i \in 1..Len(q) : q[i] = v THEN (CHOOSE i \in 1..Len(q) : q[i] = v /\ \A j \in 1..(i - 1) : q[j] # v) - 1 ELSE Len(q)
Sorted(q) == SortSeq(q, <)
(* one operation on iterator k of s = [q, h]; the returned position (or -1) is the second component *)
Pos(s, k, p) == [s EXCEPT !.h[k] = p]
Do(s, e) ==
  LET k == e.h p == s.h[k] q == s.q n == e.n IN
  CASE e.op = "begin" -> <<Pos(s, k, 0), -1>>
    [] e.op = "end" -> <<Pos(s, k, Len(q)), -1>>
    [] e.op = "inc" -> <<Pos(s, k, p + 1), p + 1>>
    [] e.op = "postinc" -> <<Pos(s, k, p + 1), p>>
    [] e.op = "dec" -> <<Pos(s, k, p - 1), p - 1>>
    [] e.op = "postdec" -> <<Pos(s, k, p - 1), p>>
    [] e.op = "add" -> <<Pos(s, k, p + n), p + n>>
    [] e.op = "plus" -> <<s, p + n>>
    [] e.op = "copy" -> <<Pos(s, k, s.h[n]), s.h[n]>>
    [] e.op = "set" -> <<[s EXCEPT !.q[p + 1] = n], -1>>
    [] e.op = "setat" -> <<[s EXCEPT !.q[p + e.d + 1] = n], -1>>
    [] e.op = "push" -> <<[s EXCEPT !.q = Append(@, n)], -1>>                 \* held iterators keep their positions
    [] e.op = "pop" -> <<[s EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)], -1>>
    [] e.op = "sort" -> <<[s EXCEPT !.q = Sorted(@)], -1>>
    [] e.op = "reverse" -> <<[s EXCEPT !.q = Reverse(SubSeq(q, 1, p)) \o SubSeq(q, p + 1, Len(q))], -1>>
    [] e.op = "rotate" -> <<[s EXCEPT !.q = SubSeq(q, p + 1, Len(q)) \o SubSeq(q, 1, p)], Len(q) - p>>
    [] e.op = "find" -> <<s, Find(q, n)>>
    [] e.op = "swapat" -> <<[s EXCEPT !.q = Swap(q, p + 1, s.h[n] + 1)], -1>>
(* everything the iterators show *)
Shows(s, o) ==
  LET q == s.q h == s.h K == Len(h)
      val == [i \in 1..K |-> IF h[i] < Len(q) THEN At(q, h[i]) ELSE -1]
      pairs == [m \in 1..(K * K) |-> Rel(h[((m - 1) \div K) + 1], h[((m - 1) % K) + 1])]
  IN /\ o.fwd = q /\ o.cfwd = q /\ o.back = Reverse(q) /\ o.len = Len(q) /\ o.neg = -Len(q)
     /\ o.pos = h /\ o.cpos = h /\ o.val = val /\ o.arrow = val
     /\ o.see = [i \in 1..K |-> q]                                            \* through it[k], for every k
     /\ o.rel = pairs /\ o.crel = pairs
     /\ o.mrel = [m \in 1..(K * K) |-> <<pairs[m][1], pairs[m][1]>>]
=============================================================================
