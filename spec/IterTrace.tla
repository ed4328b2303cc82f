------------------------------ MODULE IterTrace ------------------------------
EXTENDS Iter, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, s
vars == <<sc, l, s>>
Evs == Scens[sc].ev
Start(e) == [q |-> Scens[sc].cfg.q, h |-> [i \in 1..e.k |-> 0]]
Known == {"begin", "end", "inc", "postinc", "dec", "postdec", "add", "plus", "copy", "set", "setat", "push", "pop", "sort", "reverse", "rotate", "find", "swapat"}
Step(e) ==
  CASE e.op = "start" -> /\ s' = Start(e) /\ e.zero /\ Shows(s', e.o)
    [] e.op \in Known -> LET d == Do(s, e) IN /\ s' = d[1] /\ e.ret = d[2] /\ Shows(s', e.o)
    [] OTHER -> FALSE
Init == sc \in 1..Len(Scens) /\ l = 1 /\ s = [q |-> <<>>, h |-> <<>>]
Next == l <= Len(Evs) /\ Step(Evs[l]) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
