---------------------------- MODULE SmallVecTrace ----------------------------
EXTENDS SmallVec, FiniteSets, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, m
vars == <<sc, l, m>>
Evs == Scens[sc].ev
Faulty == {"crash", "hang", "exception", "terminate"}
ObsOk(o, q) == o.size = Len(q) /\ o.empty = (q = <<>>) /\ o.idx = q /\ o.it = q /\ o.rit = Reverse(q) /\ o.cap >= Len(q)
Ret(e, q, r) ==
  CASE e.op = "eb" -> e.ret = e.a[1]
    [] e.op \in Positional -> e.ret = e.a[1]                     \* offset of the returned iterator
    [] e.op = "at" -> e.ret = IF e.a[1] < Len(q) THEN q[e.a[1] + 1] ELSE -2
    [] e.op = "reserve" -> e.st[e.s + 1].cap >= e.a[1]
    [] OTHER -> TRUE
Step(e) ==
  /\ e.op \notin Faulty
  /\ IF e.op = "fresh"
     THEN m' = <<<<>>, <<>>>> /\ e.bad = 0 /\ e.live = 0 /\ e.blocks = 0
     ELSE LET s == e.s + 1
              o == 3 - s
              r == Result(e.op, m[s], m[o], e.a)
              known == ToSet(m[s]) \cup ToSet(m[o]) \cup ToSet(e.a) \cup {0, -1}
              n == IF e.threw
                   THEN IF e.op \in Strong THEN m ELSE [k \in 1..2 |-> e.st[k].idx]     \* basic guarantee: some valid content
                   ELSE [m EXCEPT ![s] = r, ![o] = IF e.op = "swap" THEN m[s] ELSE IF e.op = "moveassign" THEN e.left ELSE @]
          IN  /\ m' = n
              /\ e.bad = 0
              /\ e.live = Len(n[1]) + Len(n[2])
              /\ \A k \in 1..2 : ObsOk(e.st[k], n[k])
              /\ e.threw => (ToSet(n[s]) \subseteq known /\ n[o] = m[o])
              /\ e.eq = (n[1] = n[2]) /\ e.cmp = Lex(n[1], n[2])
              /\ ~e.threw => Ret(e, m[s], r)
Init == sc \in 1..Len(Scens) /\ l = 1 /\ m = <<<<>>, <<>>>>
Next == l <= Len(Evs) /\ Step(Evs[l]) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
