------------------------------ MODULE MatrixMC ------------------------------
EXTENDS MatrixM, TLC, Json, IOUtils
CONSTANTS MaxR, MaxC
VARIABLES x, n, hist
vars == <<x, n, hist>>
View == <<NR(x), x.nc>>
Vs(k) == [i \in 1..k |-> n + i]
R == 0..(NR(x) - 1)
Ops == {<<"new", r, c>> : r \in 0..MaxR, c \in 0..MaxC} \cup {<<"newv", r, c, n>> : r \in 0..MaxR, c \in 0..MaxC}
  \cup {<<"il", r, c>> \o Vs(r * c) : r \in 0..MaxR, c \in 0..MaxC}
  \cup {<<"append">> \o Vs(k) : k \in IF NR(x) = 0 THEN 0..MaxC ELSE {x.nc}}
  \cup {<<"resize", r, c, n>> : r \in 0..MaxR, c \in 0..MaxC}
  \cup {<<"clear">>, <<"copyctor">>, <<"movector">>, <<"reserve", MaxR, MaxC>>}
  \cup (IF NR(x) = 0 THEN {} ELSE {<<"popback">>} \cup {<<o, r, c, n>> : o \in {"set", "setrow"}, r \in R, c \in 0..(x.nc - 1)}
     \cup {<<o, r>> \o Vs(x.nc) : o \in {"rowassign", "rowswapout"}, r \in R} \cup {<<o, r, s>> : o \in {"rowcopy", "rowswap"}, r \in R, s \in R})
Emit(h) == IF IOEnv.GEN = "1" THEN PrintT(<<"GEN", ToJson(h)>>) ELSE TRUE
Init == x = Nil /\ n = 1 /\ hist = <<<<"new", 0, 0>>>>
Next == \E op \in Ops : LET r == Result(op[1], x, Nil, Tail(op)) IN
   hist' = Append(hist, op) /\ Emit(hist') /\ NR(r) <= MaxR /\ x' = r /\ n' = n + MaxR * MaxC + 1
Spec == Init /\ [][Next]_vars
(* the row view and the element view agree in every reachable shape *)
Shape == /\ (x.f # <<>> => Len(x.f) = NR(x) * x.nc)
         /\ FlattenSeq(Rows(x)) = x.f
         /\ \A r \in 1..NR(x), c \in 1..x.nc : Row(x, r)[c] = Col(x, c)[r]
=============================================================================
