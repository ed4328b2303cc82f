------------------------------- MODULE Repro --------------------------------
(* What can be observed of a run is a function of its configuration and the seed: every observed run is either the first of   *)
(* its key, which defines the function there, or repeats generation by generation what was observed before.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoKey == <<>>
Idle == [ph |-> "idle", memo |-> <<>>, key |-> NoKey, seen |-> <<>>]
Known(s) == s.key \in DOMAIN s.memo
Expected(s, rec) == Known(s) => /\ Len(s.seen) < Len(s.memo[s.key])
                                /\ s.memo[s.key][Len(s.seen) + 1] = rec
Run(s, e) == IF s.ph = "idle" THEN {[s EXCEPT !.ph = "run", !.key = e.key, !.seen = <<>>]} ELSE {}
Gen(s, e) == IF s.ph = "run" /\ Expected(s, <<"gen", e.d>>) THEN {[s EXCEPT !.seen = Append(@, <<"gen", e.d>>)]} ELSE {}
Ret(s, e) == IF s.ph = "run" /\ Expected(s, <<"ret", e.d>>)
             THEN {[s EXCEPT !.ph = "idle", !.seen = <<>>, !.memo = (s.key :> Append(s.seen, <<"ret", e.d>>)) @@ @]} ELSE {}
Step(s, e) == CASE e.op = "run" -> Run(s, e) [] e.op = "gen" -> Gen(s, e) [] e.op = "ret" -> Ret(s, e) [] OTHER -> {}
=============================================================================
