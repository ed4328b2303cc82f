-------------------------- MODULE FifoCacheTrace ---------------------------
(* Validates recorded operation sequences on two caches (slots 1 and 2).    *)
EXTENDS FifoCache, Integers, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, m
vars == <<sc, l, m>>
Evs == Scens[sc].ev
K == Scens[sc].cfg.keys

Obs(c) == <<c.cap, Len(c.ents), Len(c.ents) = 0, Len(c.ents) = c.cap, [k \in 1..K |-> Get(c, k)]>>
Agrees(e, n) ==
  /\ \A s \in 1..2 : e.st[s] = Obs(n[s])
  /\ (n[1].ents = n[2].ents) => e.eq              \* equal contents in equal order compare equal
  /\ e.eq => ToSet(n[1].ents) = ToSet(n[2].ents)
Step(e) ==
  LET s == IF "s" \in DOMAIN e THEN e.s + 1 ELSE 1
      o == 3 - s
      n == CASE e.op = "fresh" -> m
             [] e.op = "new" -> [m EXCEPT ![s] = Empty(e.a[1])]
             [] e.op = "ins" -> [m EXCEPT ![s] = Insert(@, e.a[1], e.a[2])]
             [] e.op = "tryins" -> [m EXCEPT ![s] = TryInsert(@, e.a[1], e.a[2])]
             [] e.op = "range" -> [m EXCEPT ![s] = InsertRange(@, [i \in 1..e.a[1] |-> <<e.a[2*i], e.a[2*i + 1]>>])]
             [] e.op = "reset" -> [m EXCEPT ![s] = Reset(@, e.a[1])]
             [] e.op = "clear" -> [m EXCEPT ![s] = Clear(@)]
             [] e.op \in {"copyctor", "movector", "selfcopy"} -> m
             [] e.op = "swap" -> [m EXCEPT ![s] = m[o], ![o] = m[s]]
             [] e.op = "copyassign" -> [m EXCEPT ![s] = m[o]]
             [] e.op = "moveassign" -> [m EXCEPT ![s] = m[o], ![o] = Empty(e.a[1])]
  IN  e.op \notin {"crash", "hang", "exception", "terminate"} /\ IF e.op = "fresh" THEN m' = <<Empty(0), Empty(0)>> ELSE m' = n /\ Agrees(e, n)

Init == sc \in 1..Len(Scens) /\ l = 1 /\ m = <<Empty(0), Empty(0)>>
Next == l <= Len(Evs) /\ Step(Evs[l]) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
