-------------------------------- MODULE Conf --------------------------------
(* The configuration of a solver: what was specified by the user stays, what was not is deduced for every run.       *)
EXTENDS Integers, Sequences
Deduce == "deduce"
None == [ok |-> FALSE]
Any == -1                                             \* not determined
DefPc == 48000                                        \* rates in units of 1/60000
DefPm(enc, len) == IF enc = "perm" THEN 36000 ELSE 60000 \div len
AlgFor(d) == IF d = 1 THEN {"so"} ELSE {"nsga2", "nsga3"}
Ctor(e) ==
  LET base == [ok |-> TRUE, alg |-> Deduce, mut |-> "def", pm |-> Any, dpm |-> TRUE, xo |-> "def", pc |-> DefPc, n |-> e.n, max |-> 500, keep |-> FALSE, run |-> 0, d |-> 0]
      given == [base EXCEPT !.alg = e.alg]
  IN CASE e.kind = 0 -> base
       [] e.kind = 1 -> given
       [] e.kind = 2 -> [base EXCEPT !.mut = "user", !.pm = e.r, !.dpm = FALSE, !.xo = "user", !.pc = e.r]
       [] e.kind = 3 -> [given EXCEPT !.pm = e.r, !.dpm = FALSE]
       [] e.kind = 4 -> given
       [] e.kind = 5 -> [base EXCEPT !.mut = "user", !.pm = e.r, !.dpm = FALSE, !.pc = e.r]
       [] e.kind = 6 -> [base EXCEPT !.alg = "user", !.pm = e.r, !.dpm = FALSE, !.xo = "user", !.pc = e.r]
       [] e.kind = 7 -> [given EXCEPT !.mut = "user", !.pm = e.r, !.dpm = FALSE, !.xo = "user", !.pc = e.r]
Set(c, e) ==
  CASE e.op = "alg" -> [c EXCEPT !.alg = e.alg, !.d = 0]
    [] e.op = "mut" -> IF e.mut = "lambda" THEN [c EXCEPT !.mut = "lambda", !.pm = Any, !.dpm = TRUE] ELSE [c EXCEPT !.mut = e.mut, !.pm = e.r, !.dpm = FALSE]
    [] e.op = "pm" -> [c EXCEPT !.pm = e.r, !.dpm = FALSE]
    [] e.op = "xo" -> IF e.xo = "lambda" THEN [c EXCEPT !.xo = "lambda", !.pc = DefPc] ELSE [c EXCEPT !.xo = e.xo, !.pc = e.r]
    [] e.op = "pc" -> [c EXCEPT !.pc = e.r]
    [] e.op = "set" -> IF e.what = "n" THEN [c EXCEPT !.n = e.v] ELSE IF e.what = "max" THEN [c EXCEPT !.max = e.v] ELSE IF e.what = "keep" THEN [c EXCEPT !.keep = (e.v = 1)] ELSE c
(* a run on a chromosome of length len with d objectives *)
Run(c, enc, e) == [c EXCEPT !.pm = IF c.dpm THEN DefPm(enc, e.len) ELSE c.pm, !.d = e.d, !.run = IF e.gens = 0 THEN c.max ELSE e.gens]
Failed(c) == [c EXCEPT !.run = 0, !.d = 0, !.pm = IF c.dpm THEN Any ELSE c.pm]
Agrees(c, o) ==
  /\ IF c.alg # Deduce THEN o.alg = c.alg ELSE (c.d = 0 \/ o.alg \in AlgFor(c.d))
  /\ o.mut = c.mut /\ o.xo = c.xo /\ o.pc = c.pc
  /\ c.pm # Any => o.pm = c.pm
  /\ o.n = c.n /\ o.keep = c.keep
  /\ o.max = IF c.run > 0 THEN c.run ELSE c.max
=============================================================================
