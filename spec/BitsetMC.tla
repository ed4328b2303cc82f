------------------------------ MODULE BitsetMC ------------------------------
(* A block-structured implementation (blocks of W bits, bits beyond the size*)
(* arbitrary) refines the bit sequence; tests for every (size, content kind,*)
(* left-over kind) and operation are printed for real block sizes.          *)
EXTENDS Bitset, TLC, Json, IOUtils
CONSTANTS W, Sizes
VARIABLES q, blk, hist
vars == <<q, blk, hist>>
Kind(s) == IF s = <<>> THEN "none" ELSE IF \A i \in 1..Len(s) : s[i] = 0 THEN "zeros" ELSE IF \A i \in 1..Len(s) : s[i] = 1 THEN "ones" ELSE "mixed"
Left == SubSeq(blk, Len(q) + 1, Len(blk))          \* what the implementation still stores behind the end
View == <<Len(q), Kind(q), Kind(Left), IF q = <<>> THEN 2 ELSE q[Len(q)]>>
FullView == <<q, blk>>
NBits(n) == ((n + W - 1) \div W) * W
Ops == {<<"newv", n, v>> : n \in Sizes, v \in 0..1} \cup {<<"resize", n, v>> : n \in Sizes, v \in 0..1}
  \cup {<<"fill", v>> : v \in 0..1} \cup {<<"clear">>, <<"compl">>, <<"copyctor">>, <<"movector">>}
  \cup (IF q = <<>> THEN {} ELSE {<<"set", i, v>> : i \in {0, Len(q) - 1, Len(q) \div 2}, v \in 0..1} \cup {<<"flip", Len(q) - 1>>, <<"refassign", 0, Len(q) - 1>>})
Impl(op) ==
  CASE op[1] = "newv" -> Rep(NBits(op[2]), op[3])
    [] op[1] = "resize" -> [i \in 1..NBits(op[2]) |-> IF i <= Len(q) THEN blk[i] ELSE IF op[2] > Len(q) \/ i > Len(blk) THEN op[3] ELSE blk[i]]
    [] op[1] = "fill" -> Rep(Len(blk), op[2])
    [] op[1] = "clear" -> <<>>
    [] op[1] = "compl" -> [i \in 1..Len(blk) |-> 1 - blk[i]]
    [] op[1] = "set" -> [blk EXCEPT ![op[2] + 1] = op[3]]
    [] op[1] = "flip" -> [blk EXCEPT ![op[2] + 1] = 1 - @]
    [] op[1] = "refassign" -> [blk EXCEPT ![op[2] + 1] = blk[op[3] + 1]]
    [] OTHER -> blk
Emit(h) == IF IOEnv.GEN = "1" THEN PrintT(<<"GEN", ToJson(h)>>) ELSE TRUE
Init == q = <<>> /\ blk = <<>> /\ hist = <<<<"new", 0>>>>
Next == \E op \in Ops : /\ q' = Result(op[1], q, <<>>, Tail(op)) /\ blk' = Impl(op)
                        /\ hist' = Append(hist, op) /\ Emit(hist')
Spec == Init /\ [][Next]_vars
Refines == Len(blk) = NBits(Len(q)) /\ q = SubSeq(blk, 1, Len(q))
=============================================================================
