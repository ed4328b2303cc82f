------------------------------- MODULE ConfMC -------------------------------
(* Every constructor followed by every short sequence of the setters that matter and two runs.                       *)
EXTENDS Conf, TLC, Json, IOUtils
CONSTANT MaxSets
VARIABLES c, h, sets, runs
vars == <<c, h, sets, runs>>
Algs == <<"deduce", "user", "soroul", "sosel", "nsga2", "nsga3">>
Fits(a) == IF a \in {"soroul", "sosel"} THEN {1} ELSE IF a \in {"nsga2", "nsga3"} THEN {2} ELSE {1, 3}
Init == \E k \in 0..7, a \in 0..4 :
          /\ k \in {0, 2, 5, 6} => a = 0
          /\ k = 4 => a \in {1, 3, 4}
          /\ c = Ctor([op |-> "ctor", kind |-> k, alg |-> Algs[a + 1], r |-> 15000, n |-> 2])
          /\ h = <<<<0, k, a, 0>>>> /\ sets = 0 /\ runs = 0
SetIt == sets < MaxSets /\ sets' = sets + 1 /\ runs' = runs
  /\ \/ \E a \in {1, 3, 4, 6} : LET n == IF a = 6 THEN "deduce" ELSE Algs[a + 1] IN c' = Set(c, [op |-> "alg", alg |-> n]) /\ h' = Append(h, <<1, a>>)
     \/ \E m \in 0..2 : c' = Set(c, [op |-> "mut", mut |-> IF m = 0 THEN "def" ELSE IF m = 1 THEN "user" ELSE "lambda", r |-> 30000]) /\ h' = Append(h, <<2, m, 1>>)
     \/ c' = Set(c, [op |-> "pm", r |-> 60000]) /\ h' = Append(h, <<3, 3>>)
     \/ \E m \in 0..2 : c' = Set(c, [op |-> "xo", xo |-> IF m = 0 THEN "def" ELSE IF m = 1 THEN "user" ELSE "lambda", r |-> 30000]) /\ h' = Append(h, <<4, m, 1>>)
     \/ c' = Set(c, [op |-> "pc", r |-> 0]) /\ h' = Append(h, <<5, 2>>)
RunIt == runs < 2 /\ runs' = runs + 1 /\ sets' = sets
  /\ \E d \in Fits(c.alg), len \in {IF runs = 0 THEN 3 ELSE 5}, g \in {IF runs = 0 THEN 1 ELSE 2} :
       c' = [Run(c, "bin", [len |-> len, d |-> d, gens |-> g]) EXCEPT !.run = 0] /\ h' = Append(h, <<7, len, d, g, 0>>)
Next == SetIt \/ RunIt
Spec == Init /\ [][Next]_vars
(* what the user set last is what is in force *)
Kept == /\ ~c.dpm => c.pm # Any
        /\ (runs > 0 /\ c.dpm /\ c.pm # Any) => c.pm \in {DefPm("bin", 3), DefPm("bin", 5)}
Emit == (runs = 2 /\ IOEnv.GEN = "1") => PrintT(<<"GEN", ToJson(h)>>)
Inv == Kept /\ Emit
=============================================================================
