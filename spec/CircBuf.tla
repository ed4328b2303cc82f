------------------------------ MODULE CircBuf ------------------------------
(* The circular buffer: a sequence `q` of at most `cap` elements; pushing to *)
(* a full buffer drops the element at the other end.                        *)
EXTENDS Integers, Sequences, SequencesExt

Empty(cap) == [cap |-> cap, q |-> <<>>]
Full(b) == Len(b.q) = b.cap
CanPush(b) == b.cap > 0
CanPop(b) == b.q # <<>>
PushBack(b, v) == [b EXCEPT !.q = Append(IF Full(b) THEN Tail(@) ELSE @, v)]
PushFront(b, v) == [b EXCEPT !.q = <<v>> \o (IF Full(b) THEN Front(@) ELSE @)]
PopFront(b) == [b EXCEPT !.q = Tail(@)]
PopBack(b) == [b EXCEPT !.q = Front(@)]
SetAt(b, i, v) == [b EXCEPT !.q[i] = v]
SetCapacity(b, n) == [cap |-> n, q |-> SubSeq(b.q, 1, IF Len(b.q) < n THEN Len(b.q) ELSE n)]
FromRange(n, s) == [cap |-> n, q |-> SubSeq(s, Len(s) - (IF Len(s) < n THEN Len(s) ELSE n) + 1, Len(s))]
Clear(b) == [b EXCEPT !.q = <<>>]

Lex(a, b) ==  \* three way lexicographical comparison
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN  IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
      ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
=============================================================================
