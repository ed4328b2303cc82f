----------------------------- MODULE FifoCache -----------------------------
(* The fitness cache: a map that keeps the `cap` most recently inserted     *)
(* distinct keys. A cache is a record [cap, ents], ents being the entries   *)
(* <<key, value>> in insertion order.                                       *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Empty(cap) == [cap |-> cap, ents |-> <<>>]
Pos(c, k) == {i \in 1..Len(c.ents) : c.ents[i][1] = k}
Has(c, k) == Pos(c, k) # {}
Get(c, k) == IF Has(c, k) THEN c.ents[CHOOSE i \in Pos(c, k) : TRUE][2] ELSE -1
Push(c, k, v) ==                       \* a key that is not stored yet
  LET e == Append(c.ents, <<k, v>>)
  IN  [c EXCEPT !.ents = IF Len(e) > c.cap THEN Tail(e) ELSE e]
Insert(c, k, v) ==
  IF c.cap = 0 THEN c
  ELSE IF Has(c, k) THEN [c EXCEPT !.ents[CHOOSE i \in Pos(c, k) : TRUE] = <<k, v>>]
  ELSE Push(c, k, v)
TryInsert(c, k, v) == IF c.cap = 0 \/ Has(c, k) THEN c ELSE Push(c, k, v)
(* A range longer than the capacity counts only by its last `cap` elements. *)
InsertRange(c, kvs) ==
  LET n == IF Len(kvs) > c.cap THEN c.cap ELSE Len(kvs)
      s == SubSeq(kvs, Len(kvs) - n + 1, Len(kvs))
  IN  FoldLeft(LAMBDA d, kv : Insert(d, kv[1], kv[2]), c, s)
Clear(c) == [c EXCEPT !.ents = <<>>]
Reset(c, cap) == Empty(cap)

(* Properties of a cache value *)
Bounded(c) == Len(c.ents) <= c.cap
UniqueKeys(c) == \A i, j \in 1..Len(c.ents) : c.ents[i][1] = c.ents[j][1] => i = j
=============================================================================
