----------------------------- MODULE BitsetTrace -----------------------------
EXTENDS Bitset, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, m
vars == <<sc, l, m>>
Evs == Scens[sc].ev
Faulty == {"crash", "hang", "exception", "terminate"}
ObsOk(o, q) ==
  LET c == Cardinality(Ones(q)) IN
  /\ o.size = Len(q) /\ o.empty = (q = <<>>) /\ o.bits = q /\ o.rbits = q
  /\ o.pop = c /\ o.any = (c > 0) /\ o.all = (c = Len(q)) /\ o.none = (c = 0)
  /\ o.f1 = First(q, 1) /\ o.f0 = First(q, 0)
Step(e) ==
  /\ e.op \notin Faulty
  /\ LET s == e.s + 1
         o == 3 - s
         n == [m EXCEPT ![s] = Result(e.op, m[s], m[o], e.a), ![o] = IF e.op = "moveassign" THEN <<>> ELSE @]
     IN m' = n /\ ObsOk(e.st, n[s]) /\ e.eq = (n[1] = n[2])
Init == sc \in 1..Len(Scens) /\ l = 1 /\ m = <<<<>>, <<>>>>
Next == l <= Len(Evs) /\ (IF Evs[l].op = "fresh" THEN m' = <<<<>>, <<>>>> ELSE Step(Evs[l])) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
