------------------------------- MODULE Bitset -------------------------------
(* The dynamic bitset is a sequence of zeros and ones.                      *)
EXTENDS Integers, Sequences, FiniteSets
Rep(n, v) == [i \in 1..n |-> v]
Resize(q, n, v) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE v]
Result(op, q, o, a) ==
  CASE op = "new" -> Rep(a[1], 0)
    [] op = "newv" -> Rep(a[1], a[2])
    [] op = "set" -> [q EXCEPT ![a[1] + 1] = a[2]]
    [] op = "flip" -> [q EXCEPT ![a[1] + 1] = 1 - @]
    [] op = "refassign" -> [q EXCEPT ![a[1] + 1] = q[a[2] + 1]]
    [] op = "fill" -> Rep(Len(q), a[1])
    [] op = "resize" -> Resize(q, a[1], a[2])
    [] op = "resize1" -> Resize(q, a[1], 0)
    [] op = "clear" -> <<>>
    [] op = "compl" -> [i \in 1..Len(q) |-> 1 - q[i]]
    [] op \in {"copyctor", "movector"} -> q
    [] op \in {"copyassign", "moveassign"} -> o
Ones(q) == {i \in 1..Len(q) : q[i] = 1}
First(q, v) == LET S == {i \in 1..Len(q) : q[i] = v} IN IF S = {} THEN Len(q) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
=============================================================================
