------------------------------ MODULE MatrixM ------------------------------
(* A matrix is its elements in row-major order and the length of a row; a   *)
(* matrix without elements has no rows.                                     *)
EXTENDS Integers, Sequences, SequencesExt
Mat(nc, f) == [nc |-> nc, f |-> f]
Nil == Mat(0, <<>>)
NR(x) == IF x.f = <<>> THEN 0 ELSE Len(x.f) \div x.nc
Row(x, r) == SubSeq(x.f, (r - 1) * x.nc + 1, r * x.nc)
Rows(x) == [r \in 1..NR(x) |-> Row(x, r)]
Col(x, c) == [r \in 1..NR(x) |-> x.f[(r - 1) * x.nc + c]]
OfRows(rs) == IF rs = <<>> THEN Nil ELSE Mat(Len(rs[1]), FlattenSeq(rs))
Rep(n, v) == [i \in 1..n |-> v]
Resize(x, nr, nc, v) == Mat(nc, [i \in 1..(nr * nc) |-> IF i <= Len(x.f) THEN x.f[i] ELSE v])
SetRow(x, r, s) == [x EXCEPT !.f = [i \in 1..Len(x.f) |-> IF i > (r - 1) * x.nc /\ i <= r * x.nc THEN s[i - (r - 1) * x.nc] ELSE x.f[i]]]
Result(op, x, o, a) ==
  CASE op = "new" -> Mat(a[2], Rep(a[1] * a[2], 0))
    [] op = "newv" -> Mat(a[2], Rep(a[1] * a[2], a[3]))
    [] op = "il" -> IF a[1] = 0 THEN Nil ELSE Mat(a[2], SubSeq(a, 3, Len(a)))
    [] op = "range" -> IF a[1] = a[2] THEN Nil ELSE OfRows(SubSeq(Rows(o), a[1] + 1, a[2]))
    [] op = "append" -> Mat(Len(a), x.f \o a)
    [] op = "appendrow" -> Mat(o.nc, x.f \o Row(o, a[1] + 1))
    [] op = "popback" -> Resize(x, NR(x) - 1, x.nc, 0)
    [] op = "resize" -> Resize(x, a[1], a[2], a[3])
    [] op = "clear" -> Nil
    [] op \in {"set", "setrow"} -> [x EXCEPT !.f[a[1] * x.nc + a[2] + 1] = a[3]]
    [] op \in {"rowassign", "rowil"} -> SetRow(x, a[1] + 1, Tail(a))
    [] op = "rowcopy" -> SetRow(x, a[1] + 1, Row(x, a[2] + 1))
    [] op = "rowfrom" -> SetRow(x, a[1] + 1, Row(o, a[2] + 1))
    [] op = "rowswap" -> LET p == Row(x, a[1] + 1) q == Row(x, a[2] + 1) IN SetRow(SetRow(x, a[1] + 1, q), a[2] + 1, p)
    [] op = "rowswapout" -> SetRow(x, a[1] + 1, Tail(a))
    [] op \in {"copyctor", "movector", "reserve"} -> x
    [] op \in {"swap", "copyassign", "moveassign"} -> o
=============================================================================
