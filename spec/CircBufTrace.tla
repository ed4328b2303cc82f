---------------------------- MODULE CircBufTrace ----------------------------
EXTENDS CircBuf, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, m
vars == <<sc, l, m>>
Evs == Scens[sc].ev
Faulty == {"crash", "hang", "exception", "terminate"}

Obs(b) == <<b.cap, Len(b.q), Len(b.q) = 0, Full(b), b.q, b.q, Reverse(b.q)>>
Apply(s, e) ==
  LET o == 3 - s b == m[s] a == e.a IN
  CASE e.op = "new" -> [m EXCEPT ![s] = Empty(a[1])]
    [] e.op = "list" -> [m EXCEPT ![s] = FromRange(a[1], Tail(a))]
    [] e.op \in {"pb", "pbm", "eb"} -> [m EXCEPT ![s] = PushBack(b, a[1])]
    [] e.op \in {"pf", "pfm", "ef"} -> [m EXCEPT ![s] = PushFront(b, a[1])]
    [] e.op = "popf" -> [m EXCEPT ![s] = PopFront(b)]
    [] e.op = "popb" -> [m EXCEPT ![s] = PopBack(b)]
    [] e.op = "setat" -> [m EXCEPT ![s] = SetAt(b, a[1] + 1, a[2])]
    [] e.op = "setcap" -> [m EXCEPT ![s] = SetCapacity(b, a[1])]
    [] e.op = "reset" -> [m EXCEPT ![s] = Empty(a[1])]
    [] e.op = "clear" -> [m EXCEPT ![s] = Clear(b)]
    [] e.op = "swap" -> [m EXCEPT ![s] = m[o], ![o] = m[s]]
    [] e.op = "copyassign" -> [m EXCEPT ![s] = m[o]]
    [] e.op = "moveassign" -> [m EXCEPT ![s] = m[o], ![o] = FromRange(e.left[1], Tail(e.left))]
    [] e.op \in {"copyctor", "movector", "at"} -> m
    [] e.op = "fresh" -> <<Empty(0), Empty(0)>>
Ret(e, s, n) ==   \* values returned by the operation
  CASE e.op \in {"eb", "ef"} -> e.ret = e.a[1]
    [] e.op = "at" -> e.ret = IF e.a[1] < Len(m[s].q) THEN m[s].q[e.a[1] + 1] ELSE -2
    [] OTHER -> TRUE
Step(e) ==
  /\ e.op \notin Faulty
  /\ LET s == IF "s" \in DOMAIN e THEN e.s + 1 ELSE 1
         n == IF e.threw
              THEN IF e.op = "reset" THEN [m EXCEPT ![s] = Empty(e.st[s][1])] ELSE m       \* a failure leaves everything as it was (a reset discards first)
              ELSE Apply(s, e)
     IN  /\ m' = n
         /\ e.bad = 0
         /\ e.live = Len(n[1].q) + Len(n[2].q)          \* exactly the contained elements are alive
         /\ IF e.op = "fresh" THEN e.blocks = 0         \* all storage was given back
            ELSE /\ \A k \in 1..2 : e.st[k] = Obs(n[k])
                 /\ e.eq = (n[1].q = n[2].q)
                 /\ e.cmp = Lex(n[1].q, n[2].q)
                 /\ ~e.threw => Ret(e, s, n)
Init == sc \in 1..Len(Scens) /\ l = 1 /\ m = <<Empty(0), Empty(0)>>
Next == l <= Len(Evs) /\ Step(Evs[l]) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
