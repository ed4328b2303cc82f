----------------------------- MODULE ConfTrace ------------------------------
EXTENDS Conf, TLC, Json, IOUtils
Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, c
vars == <<sc, l, c>>
Evs == Scens[sc].ev
Enc == Scens[sc].cfg.enc
Step(e) ==
  CASE e.op = "ctor" -> c' = Ctor(e)
    [] e.op \in {"alg", "mut", "pm", "xo", "pc", "set"} -> c' = Set(c, e)
    [] e.op = "run" -> c' = Run(c, Enc, e)
    [] e.op = "in" -> c.run > 0 /\ Agrees(c, e.o) /\ c' = c
    [] e.op = "done" -> c' = [c EXCEPT !.run = 0]
    [] e.op = "failed" -> c' = Failed(c)
    [] e.op = "obs" -> Agrees(c, e.o) /\ c' = c
    [] OTHER -> FALSE
Init == sc \in 1..Len(Scens) /\ l = 1 /\ c = None
Next == l <= Len(Evs) /\ Step(Evs[l]) /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
Report == /\ (l > Len(Evs)) => PrintT(<<"ACCEPT", sc>>)
          /\ (IOEnv.PROGRESS = "1") => PrintT(<<"AT", sc, l>>)
=============================================================================
