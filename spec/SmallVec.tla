------------------------------ MODULE SmallVec ------------------------------
(* The small vector is a sequence; where its elements are stored must not   *)
(* be observable.                                                           *)
EXTENDS Integers, Sequences, SequencesExt
Rep(n, v) == [i \in 1..n |-> v]
Resize(q, n, v) == IF n <= Len(q) THEN SubSeq(q, 1, n) ELSE q \o Rep(n - Len(q), v)
InsertAtPos(q, p, s) == SubSeq(q, 1, p) \o s \o SubSeq(q, p + 1, Len(q))       \* p elements stay in front
EraseRange(q, p, r) == SubSeq(q, 1, p) \o SubSeq(q, r + 1, Len(q))             \* erases positions p+1..r
Lex(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN  IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
      ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
(* Result of an operation on q (other vector: o); a is the argument list *)
Result(op, q, o, a) ==
  CASE op = "new" -> <<>>
    [] op = "newn" -> Rep(a[1], 0)
    [] op = "newv" -> Rep(a[1], a[2])
    [] op \in {"list", "input", "ilist", "assign", "assigninput"} -> a
    [] op = "assignn" -> Rep(a[1], a[2])
    [] op \in {"pb", "pbm", "eb"} -> Append(q, a[1])
    [] op = "pbself" -> Append(q, q[a[1] + 1])
    [] op = "popb" -> Front(q)
    [] op = "resize" -> Resize(q, a[1], 0)
    [] op = "resizev" -> Resize(q, a[1], a[2])
    [] op = "resizeself" -> Resize(q, a[1], q[a[2] + 1])
    [] op \in {"ins", "insm", "emplace"} -> InsertAtPos(q, a[1], <<a[2]>>)
    [] op = "insself" -> InsertAtPos(q, a[1], <<q[a[2] + 1]>>)
    [] op = "insn" -> InsertAtPos(q, a[1], Rep(a[2], a[3]))
    [] op = "insnself" -> InsertAtPos(q, a[1], Rep(a[2], q[a[3] + 1]))
    [] op \in {"insr", "insil", "insinput"} -> InsertAtPos(q, a[1], Tail(a))
    [] op = "erase1" -> EraseRange(q, a[1], a[1] + 1)
    [] op = "erase" -> EraseRange(q, a[1], a[2])
    [] op \in {"clear", "reset"} -> <<>>
    [] op = "setat" -> [q EXCEPT ![a[1] + 1] = a[2]]
    [] op \in {"reserve", "shrink", "copyctor", "movector", "selfassign", "at"} -> q
    [] op \in {"swap", "copyassign", "moveassign"} -> o
Positional == {"ins", "insm", "emplace", "insself", "insn", "insnself", "insr", "insil", "insinput", "erase1", "erase"}
(* Operations that leave everything as it was when a copy throws *)
Strong == {"new", "newn", "newv", "list", "input", "pb", "eb", "pbm", "pbself", "resize", "resizev", "resizeself", "reserve", "shrink", "copyctor"}
=============================================================================
