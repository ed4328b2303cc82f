----------------------------- MODULE MatrixTrace -----------------------------
EXTENDS MatrixM, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, m
vars == <<sc, l, m>>
Evs == Scens[sc].ev
Faulty == {"crash", "hang", "exception", "terminate"}
ObsOk(o, x, y) ==
  /\ o.nrows = NR(x) /\ o.size = NR(x) /\ o.ncols = x.nc /\ o.empty = (x.f = <<>>)
  /\ o.el = Rows(x) /\ o.rows = Rows(x) /\ o.iter = Rows(x) /\ o.riter = Reverse(Rows(x))
  /\ o.cols = [c \in 1..(IF x.f = <<>> THEN 0 ELSE x.nc) |-> Col(x, c)]
  /\ o.weird = 0
  /\ o.roweq = [r \in 1..NR(x) |-> [q \in 1..NR(x) |-> Row(x, r) = Row(x, q)]]
  /\ o.roweqx = [r \in 1..NR(x) |-> [q \in 1..NR(y) |-> Row(x, r) = Row(y, q)]]
Step(e) ==
  /\ e.op \notin Faulty
  /\ LET s == e.s + 1
         o == 3 - s
         n == [m EXCEPT ![s] = Result(e.op, m[s], m[o], e.a), ![o] = IF e.op = "swap" THEN m[s] ELSE IF e.op = "moveassign" THEN Nil ELSE @]
     IN /\ m' = n /\ ObsOk(e.st, n[s], n[o]) /\ ObsOk(e.st2, n[o], n[s])
        /\ e.eq = ((n[1].f = <<>> /\ n[2].f = <<>>) \/ n[1] = n[2])
        /\ e.op = "rowswapout" => e.out = Row(m[s], e.a[1] + 1)
Init == sc \in 1..Len(Scens) /\ l = 1 /\ m = <<Nil, Nil>>
Next == l <= Len(Evs) /\ (IF Evs[l].op = "fresh" THEN m' = <<Nil, Nil>> ELSE Step(Evs[l])) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
