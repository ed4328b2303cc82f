----------------------------- MODULE CircBufMC -----------------------------
(* The abstract buffer together with an implementation-shaped ring (array,  *)
(* first, size); the ring refines the sequence at every step. All rotations *)
(* of the ring are visited, and one test per transition is printed.         *)
EXTENDS CircBuf, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxCap
VARIABLES b, ring, n, hist, via
vars == <<b, ring, n, hist, via>>
Nil == 0
Ops == {<<o>> : o \in {"pb", "pf", "popf", "popb", "clear", "copyctor", "movector", "swap"}}
       \cup {<<"setcap", k>> : k \in 0..MaxCap} \cup {<<"reset", k>> : k \in 0..MaxCap}
View == <<b.cap, Len(b.q), ring.first, via>>

Idx(r, i) == ((r.first + i) % r.cap) + 1            \* array position of the i-th element (from 0)
RingSeq(r) == [i \in 1..r.size |-> r.arr[Idx(r, i - 1)]]
NewRing(cap, s) == [cap |-> cap, first |-> 0, size |-> Len(s), arr |-> [i \in 1..cap |-> IF i <= Len(s) THEN s[i] ELSE Nil]]
RPushBack(r, v) == IF r.size = r.cap
  THEN [r EXCEPT !.arr[r.first + 1] = v, !.first = (r.first + 1) % r.cap]
  ELSE [r EXCEPT !.arr[Idx(r, r.size)] = v, !.size = @ + 1]
RPushFront(r, v) ==
  LET f == (r.first + r.cap - 1) % r.cap
  IN  [r EXCEPT !.arr[f + 1] = v, !.first = f, !.size = IF @ = r.cap THEN @ ELSE @ + 1]
RPopFront(r) == [r EXCEPT !.arr[r.first + 1] = Nil, !.first = (r.first + 1) % r.cap, !.size = @ - 1]
RPopBack(r) == [r EXCEPT !.arr[Idx(r, r.size - 1)] = Nil, !.size = @ - 1]
Emit(h) == IF IOEnv.GEN = "1" THEN PrintT(<<"GEN", ToJson(h)>>) ELSE TRUE

Init == /\ \E k \in 0..MaxCap : b = Empty(k) /\ ring = NewRing(k, <<>>) /\ hist = <<<<"new", k>>>>
        /\ n = 1 /\ via = "new"
Next == \E op \in Ops :
  /\ op[1] \in {"pb", "pf"} => CanPush(b)
  /\ op[1] \in {"popf", "popb"} => CanPop(b)
  /\ b' = CASE op[1] = "pb" -> PushBack(b, n) [] op[1] = "pf" -> PushFront(b, n)
            [] op[1] = "popf" -> PopFront(b) [] op[1] = "popb" -> PopBack(b)
            [] op[1] = "clear" -> Clear(b) [] op[1] = "setcap" -> SetCapacity(b, op[2])
            [] op[1] = "reset" -> Empty(op[2]) [] OTHER -> b
  /\ ring' = CASE op[1] = "pb" -> RPushBack(ring, n) [] op[1] = "pf" -> RPushFront(ring, n)
            [] op[1] = "popf" -> RPopFront(ring) [] op[1] = "popb" -> RPopBack(ring)
            [] op[1] = "clear" -> NewRing(ring.cap, <<>>)
            [] op[1] = "setcap" -> IF op[2] = ring.cap THEN ring ELSE NewRing(op[2], SubSeq(RingSeq(ring), 1, IF ring.size < op[2] THEN ring.size ELSE op[2]))
            [] op[1] = "reset" -> NewRing(op[2], <<>>)
            [] op[1] = "copyctor" -> NewRing(ring.cap, RingSeq(ring)) [] OTHER -> ring
  /\ via' = IF op[1] \in {"copyctor", "movector", "swap"} THEN op[1] ELSE IF op[1] \in {"setcap", "reset"} THEN "cap" ELSE "op"
  /\ n' = IF op[1] \in {"pb", "pf"} THEN n + 1 ELSE n
  /\ hist' = Append(hist, IF op[1] \in {"pb", "pf"} THEN <<op[1], n>> ELSE op) /\ Emit(hist')
Spec == Init /\ [][Next]_vars
Bounded == Len(b.q) <= b.cap
Refines == b.cap = ring.cap /\ b.q = RingSeq(ring)
NoStale == ring.cap > 0 => Cardinality({i \in 1..ring.cap : ring.arr[i] # Nil}) = ring.size   \* popped slots are not kept alive
=============================================================================
