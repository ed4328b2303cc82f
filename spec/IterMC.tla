------------------------------- MODULE IterMC -------------------------------
(* Two iterators over a sequence of three elements: every reachable pair of positions, and every operation from it.    *)
EXTENDS Iter, TLC, Json, IOUtils
CONSTANTS MaxLen, MaxOps
VARIABLES s, nxt, hist
vars == <<s, nxt, hist>>
q0 == <<10, 20, 30>>
Op(o, k, n) == [op |-> o, h |-> k, n |-> n, d |-> 0]
Ops == LET p(k) == s.h[k] N == Len(s.q) IN
  UNION {    {Op(o, k, 0) : o \in {"begin", "end", "reverse", "rotate"}}
        \cup (IF p(k) < N THEN {Op("inc", k, 0), Op("postinc", k, 0), Op("set", k, nxt)} ELSE {})
        \cup (IF p(k) > 0 THEN {Op("dec", k, 0), Op("postdec", k, 0)} ELSE {})
        \cup {Op(o, k, t - p(k)) : o \in {"add", "plus"}, t \in 0..N}
        \cup {Op("copy", k, 3 - k)}
        \cup {Op("find", k, v) : v \in ToSet(s.q) \cup {-3}}
        \cup (IF \A j \in 1..2 : p(j) < N THEN {Op("swapat", k, 3 - k)} ELSE {}) : k \in 1..2}
  \cup {Op("sort", 1, 0)}
  \cup (IF Len(s.q) < MaxLen THEN {Op("push", 1, nxt)} ELSE {})
  \cup (IF Len(s.q) > 0 /\ \A j \in 1..2 : p(j) < N THEN {Op("pop", 1, 0)} ELSE {})
Text(o) == <<o.op, o.h, IF o.op \in {"copy", "swapat"} THEN o.n - 1 ELSE o.n>>
Init == s = [q |-> q0, h |-> <<0, 0>>] /\ nxt = 1000 /\ hist = <<>>
Next == \E o \in Ops :
  LET d == Do(s, o) t == Append(hist, Text(o)) IN
  /\ Len(SelectSeq(s.q, LAMBDA x : x >= 1000)) <= MaxOps
  /\ s' = d[1] /\ nxt' = IF o.op \in {"set", "push"} THEN nxt + 10 ELSE nxt
  /\ hist' = t
  /\ Assert(o.op \in {"set", "push", "begin", "end", "pop", "sort", "reverse", "swapat"} \/ Legal(s.q, d[2]), "illegal position")
  /\ (IOEnv.GEN = "1") => PrintT(<<"GEN", ToJson(t)>>)
Spec == Init /\ [][Next]_vars
Shape(q) == [i \in DOMAIN q |-> Cardinality({j \in DOMAIN q : q[j] < q[i]})]
View == <<s.h, Shape(s.q), nxt>>
Bound == nxt <= 1000 + 10 * MaxOps
Inv == /\ \A k \in 1..2 : Legal(s.q, s.h[k])
       /\ \A a, b \in 1..2 : s.h[b] + Rel(s.h[a], s.h[b])[1] = s.h[a]              \* b + (a - b) = a
       /\ \A a, b \in 1..2 : Rel(s.h[a], s.h[b])[1] = -Rel(s.h[b], s.h[a])[1]
       /\ Len(s.q) <= MaxLen
=============================================================================
