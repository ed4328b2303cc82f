------------------------------- MODULE GaRun -------------------------------
(* A run of the solver as its user can observe it: the calls it makes to the fitness function, the operators,      *)
(* the algorithm, the metrics, the stop condition and the callback, and the state these can see.                    *)
(* `Step(s, e)` is the set of successor states of s for the observed call e (empty: not allowed), `On` makes the     *)
(* conjuncts of one property conditional, so that one specification decides several properties separately.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, FifoCache
CONSTANT Props
On(p, c) == (p \in Props) => c

(* ---- small helpers ---- *)
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Idx(q, P(_)) == {i \in 1..Len(q) : P(q[i])}
Cnt(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SubMulti(a, b) == \A i \in 1..Len(a) : Cnt(a, a[i]) <= Cnt(b, a[i])
SameMulti(a, b) == Len(a) = Len(b) /\ SubMulti(a, b)
Lower(a, b) == IF a < b THEN a ELSE b
Dominates(f, g) == (\A k \in DOMAIN f : f[k] >= g[k]) /\ (\E k \in DOMAIN f : f[k] > g[k])
CF(x) == <<x.c, x.f>>                                   \* a candidate as chromosome and fitness
CFs(p) == [i \in 1..Len(p) |-> CF(p[i])]
Optimal(S) == {x \in S : \A y \in S : ~Dominates(y[2], x[2])}
Good(genes, r) ==                                       \* valid for the encoding
  /\ IF r.enc = "user" THEN Len(genes) >= 1 ELSE Len(genes) = r.len          \* a user's encoding may have chromosomes of any length
  /\ CASE r.enc = "user" -> \A i \in 1..Len(genes) : genes[i] \in 0..3
       [] r.enc = "bin" -> \A i \in 1..Len(genes) : genes[i] \in {0, 1}
       [] r.enc = "perm" -> {genes[i] : i \in 1..Len(genes)} = 0..(r.len - 1)
       [] OTHER -> \A i \in 1..Len(genes) : r.lo[i] <= genes[i] /\ genes[i] <= r.hi[i]

(* ---- state ---- *)
None == [len |-> 0]
Idle == [ph |-> "idle", r |-> None, F |-> <<>>, init |-> <<>>, pop |-> <<>>, g |-> 0, ev |-> 0, fits |-> <<>>,
         seen |-> {}, stopped |-> FALSE, cache |-> Empty(0), recent |-> <<>>, arch |-> {},
         sel |-> <<>>, nsel |-> 0, C |-> <<>>, M |-> <<>>, X |-> <<>>, D |-> <<>>, nm |-> 0, nr |-> 0, prep |-> FALSE, picks |-> <<>>, rows |-> <<>>]
Limit(r) == IF r.gens = 0 THEN r.max ELSE r.gens
Known(s, c) == c \in DOMAIN s.F
FOf(s, c) == IF Known(s, c) THEN s.F[c] ELSE <<>>
N(s) == s.r.n

(* Whether an evaluation of a child is required (0), optional (1) or forbidden (2).                                  *)
Class(s, x) ==
  LET fifo == \E i \in 1..Len(s.cache.ents) : s.cache.ents[i][1] = x.c
      last == \E i \in 1..Lower(s.r.cache, Len(s.recent)) : x.c \in s.recent[i]
      curr == \E i \in 1..Len(s.pop) : s.pop[i].c = x.c
  IN IF s.r.dyn THEN 0
     ELSE IF x.k THEN 2
     ELSE IF fifo /\ last THEN 2
     ELSE IF fifo \/ last \/ (s.r.cache > 0 /\ curr) \/ x.c \in x.par THEN 1
     ELSE 0

(* ---- start of a run ---- *)
Run(e) == {[Idle EXCEPT !.ph = "start", !.r = e, !.cache = Empty(IF e.dyn THEN 0 ELSE e.cache * e.n)]}
Chrom(s, e) ==                                          \* a chromosome is seen for the first time
  IF On("G05", Good(e.genes, s.r)) THEN {[s EXCEPT !.F = @ @@ (e.c :> e.f)]} ELSE {}
InitPop(s, e) == {[s EXCEPT !.init = e.pop, !.ph = "init"]}

(* ---- the first generation ---- *)
NPre(s) == Lower(Len(s.init), N(s))
FitInit(s, e) == {[s EXCEPT !.fits = Append(@, e.c)]}
(* p is the first population that is observed *)
FirstPop(s, p) ==
  LET need == [i \in 1..Len(p) |-> IF i <= NPre(s) /\ s.init[i].ev /\ ~s.r.dyn THEN 0 ELSE 1]
      must == SelectSeq([i \in 1..Len(p) |-> IF need[i] = 1 THEN p[i].c ELSE 0], LAMBDA c : c # 0)
      extra == Len(s.fits) - Len(must)
  IN IF /\ On("G02", Len(p) = N(s) /\ \A i \in 1..Len(p) : p[i].ev /\ (s.r.vary \/ p[i].f = FOf(s, p[i].c)))
        /\ On("G04", /\ Len(p) >= NPre(s)
                     /\ \A i \in 1..NPre(s) : p[i].c = s.init[i].c
                     /\ \A i \in 1..NPre(s) : need[i] = 0 => p[i].f = s.init[i].f
                     /\ Len(s.fits) <= Len(must) + 1
                     /\ SubMulti(must, s.fits))
        /\ On("G03", SubMulti(must, s.fits) /\ extra \in {0, 1})
        /\ On("G09", SubMulti(must, s.fits))
     THEN {[s EXCEPT !.pop = p, !.ph = "end", !.g = 0, !.ev = Len(must), !.arch = IF s.r.vary THEN {} ELSE ToSet(CFs(p)), !.seen = {}]}
     ELSE {}

(* ---- one generation ---- *)
(* the previous generation has been reported completely and the run goes on *)
Reported(s) == /\ s.r.met => "mup" \in s.seen
               /\ s.r.cb => "cb" \in s.seen
               /\ s.r.ustop => "stop" \in s.seen
GoesOn(s) == Reported(s) /\ ~s.stopped /\ s.g + 1 < Limit(s.r)
Begin(s) ==
  IF s.ph = "gen" THEN {s}
  ELSE IF s.ph = "end" /\ On("G01", GoesOn(s))
       THEN {[s EXCEPT !.ph = "gen", !.sel = <<>>, !.nsel = 0, !.C = <<>>, !.M = <<>>, !.X = <<>>, !.D = <<>>, !.nm = 0, !.nr = 0,
                       !.prep = FALSE, !.picks = <<>>, !.rows = <<>>]}
       ELSE {}
Prep(s, e) == IF On("G09", ~s.prep /\ s.nsel = 0 /\ s.nm = 0 /\ e.fm = [i \in 1..Len(s.pop) |-> s.pop[i].f]) THEN {[s EXCEPT !.prep = TRUE]} ELSE {}
Sel(s, e) ==
  IF On("G09", s.prep /\ e.same /\ e.i < Len(s.pop))
  THEN {[s EXCEPT !.sel = IF e.i < Len(s.pop) THEN Append(@, s.pop[e.i + 1].c) ELSE @, !.nsel = @ + 1]} ELSE {}
(* candidates available for mutation: children of the crossover, or selected candidates that were not recombined *)
Parent(s, x) == \E i \in 1..Len(s.pop) : CF(s.pop[i]) = CF(x)
Xo(s, e) ==
  LET par == {e.a.c, e.b.c}
      ia == Idx(s.sel, LAMBDA c : c = e.a.c)
      s1 == IF ia = {} THEN s ELSE [s EXCEPT !.sel = Drop(@, Min(ia))]
      ib == Idx(s1.sel, LAMBDA c : c = e.b.c)
      s2 == IF ib = {} THEN s1 ELSE [s1 EXCEPT !.sel = Drop(@, Min(ib))]
      kid(c) == [c |-> c, k |-> c \in par, par |-> par]
  IN IF /\ On("G09", s.r.ua => (ia # {} /\ ib # {}))
        /\ On("G09", Parent(s, e.a) /\ Parent(s, e.b))
        /\ On("G02", e.a.ev /\ e.b.ev)
     THEN {[s2 EXCEPT !.C = @ \o <<kid(e.x), kid(e.y)>>]} ELSE {}
Made(s, e) ==                                           \* where the candidate that is mutated may come from
  LET cs == {i \in 1..Len(s.C) : s.C[i].c = e.in}
      ss == {i \in 1..Len(s.sel) : s.sel[i] = e.in}
      copy == [c |-> e.in, k |-> TRUE, par |-> {e.in}]
      anon == IF s.r.ua THEN ss # {} ELSE \E i \in 1..Len(s.pop) : s.pop[i].c = e.in
  IN  \* prefer the origin whose knowledge agrees with the candidate that is handed to the operator
      [fromC |-> cs, fromS |-> ss, copy |-> copy, anon |-> anon]
Mut(s, e) ==
  LET o == Made(s, e)
      agree == {i \in o.fromC : s.C[i].k = e.s.ev}
      take == IF agree # {} THEN agree ELSE o.fromC
      next(orig, t) ==
        LET x == [c |-> e.out, k |-> orig.k /\ e.out = e.in, par |-> orig.par]
        IN [t EXCEPT !.nm = @ + 1, !.M = IF s.r.rep THEN Append(@, x) ELSE @, !.X = IF s.r.rep THEN @ ELSE Append(@, [x EXCEPT !.k = x.k] @@ [cl |-> Class(s, x)])]
      lost == [c |-> e.in, k |-> FALSE, par |-> {}]
  IN IF /\ On("G09", s.nm < N(s) /\ (o.fromC # {} \/ o.anon))
        /\ On("V03", e.s.ev => ((agree # {} \/ o.anon) /\ (s.r.vary \/ e.s.f = FOf(s, e.in))))
     THEN IF o.fromC # {} /\ (agree # {} \/ ~o.anon)
          THEN LET i == Min(take) IN {next(s.C[i], [s EXCEPT !.C = Drop(@, i)])}
          ELSE IF o.anon THEN {next(o.copy, IF o.fromS = {} THEN s ELSE [s EXCEPT !.sel = Drop(@, Min(o.fromS))])}
          ELSE {next(lost, s)}
     ELSE {}
Rep(s, e) ==
  LET ms == {i \in 1..Len(s.M) : s.M[i].c = e.in}
      orig == IF ms = {} THEN [c |-> e.in, k |-> FALSE, par |-> {}] ELSE s.M[Min(ms)]
      x == [c |-> e.out, k |-> orig.k /\ e.out = e.in, par |-> orig.par]
  IN IF On("G09", ms # {} /\ s.nr < N(s))
     THEN \* several children with the same chromosome: the one whose fitness is known and the one whose is not are different histories
          {[s EXCEPT !.nr = @ + 1, !.M = IF i = 0 THEN @ ELSE Drop(@, i),
                     !.X = Append(@, LET y == IF i = 0 THEN x ELSE [c |-> e.out, k |-> s.M[i].k /\ e.out = e.in, par |-> s.M[i].par] IN y @@ [cl |-> Class(s, y)])] :
             i \in IF ms = {} THEN {0} ELSE {j \in ms : \A k \in ms : (s.M[k].k = s.M[j].k /\ s.M[k].par = s.M[j].par) => j <= k}}
     ELSE {}
Fit(s, e) ==
  LET xs == {i \in 1..Len(s.X) : s.X[i].c = e.c}
      best == {i \in xs : \A j \in xs : s.X[i].cl <= s.X[j].cl}
  IN IF /\ On("G09", s.r.um => xs # {})
        /\ On("G03", s.r.um => (xs # {} /\ s.X[Min(best)].cl < 2))
     THEN {[s EXCEPT !.ev = @ + 1, !.X = IF xs = {} THEN @ ELSE Drop(@, Min(best)), !.D = Append(@, <<e.c, e.f>>)]} ELSE {}
(* the children of the generation, once it is complete: those evaluated and those that kept a known fitness *)
Children(s) == s.D \o [i \in 1..Len(s.X) |-> <<s.X[i].c, FOf(s, s.X[i].c)>>]
AllMade(s) == /\ On("G09", s.r.ua => s.nsel = N(s) + (N(s) % 2))
              /\ On("G09", s.r.um => s.nm = N(s))
              /\ On("G09", s.r.rep /\ s.r.um => s.nr = N(s))
              /\ On("G03", s.r.um => \A i \in 1..Len(s.X) : s.X[i].cl > 0)
              /\ On("V03", s.r.um => \A i \in 1..Len(s.X) : s.X[i].cl > 0)        \* nothing else passes as evaluated
NextPop(s, e) ==
  LET ch == Children(s)
      rows == [i \in 1..Len(e.fm) |-> e.fm[i]]
  IN IF /\ AllMade(s)
        /\ On("G09", s.rows = <<>> /\ Len(rows) = 2 * N(s) /\ SubSeq(rows, 1, N(s)) = [i \in 1..N(s) |-> s.pop[i].f])
        /\ On("G09", s.r.um => SameMulti(SubSeq(rows, N(s) + 1, Len(rows)), [i \in 1..Len(ch) |-> ch[i][2]]))
     THEN {[s EXCEPT !.picks = e.pick, !.rows = rows]} ELSE {}
(* p is the population after the replacement *)
NewPop(s, p) ==
  LET ch == Children(s)
      all == [i \in 1..Len(s.pop) |-> CF(s.pop[i])] \o ch
      keptRows == \A i \in 1..Len(p) : i <= Len(s.picks) => (p[i].f = s.rows[s.picks[i] + 1] /\ (s.picks[i] < N(s) => p[i].c = s.pop[s.picks[i] + 1].c))
      fromCh == SelectSeq([i \in 1..Len(p) |-> IF i <= Len(s.picks) /\ s.picks[i] >= N(s) THEN CF(p[i]) ELSE <<0>>], LAMBDA x : x # <<0>>)
  IN IF /\ (s.r.ua \/ AllMade(s))
        /\ On("G02", Len(p) = N(s) /\ \A i \in 1..Len(p) : p[i].ev /\ (s.r.vary \/ p[i].f = FOf(s, p[i].c)))
        /\ On("G09", s.r.ua => (Len(s.picks) = Len(p) /\ keptRows /\ (s.r.um => SubMulti(fromCh, ch))))
        /\ On("G09", s.r.um => SubMulti(CFs(p), all))
     THEN {[s EXCEPT !.ph = "end", !.g = @ + 1, !.pop = p, !.seen = {}, !.stopped = FALSE,
                     !.cache = IF s.r.dyn THEN @ ELSE InsertRange(@, [i \in 1..Len(s.pop) |-> <<s.pop[i].c, 0>>]),
                     !.recent = <<{s.pop[i].c : i \in 1..Len(s.pop)}>> \o @,
                     !.arch = IF s.r.vary \/ ~s.r.keep THEN {} ELSE @ \cup ToSet(CFs(p))]} ELSE {}
(* ---- what is reported in every generation ---- *)
Settle(s, p) == IF s.ph = "init" THEN FirstPop(s, p) ELSE IF s.ph = "gen" THEN NewPop(s, p) ELSE IF s.ph = "end" THEN {s} ELSE {}
SnapOk(s, x) == /\ On("G01", x.g = s.g /\ CFs(x.pop) = CFs(s.pop) /\ x.max = Limit(s.r) /\ x.fm = [i \in 1..Len(s.pop) |-> s.pop[i].f])
                /\ On("G02", x.fm = [i \in 1..Len(x.pop) |-> x.pop[i].f] /\ CFs(x.pop) = CFs(s.pop) /\ Len(x.pop) = N(s))
                /\ On("G03", x.e = s.ev)
                /\ On("G07", x.e = s.ev /\ x.g = s.g)
Report(s, kind, e) ==
  {[t EXCEPT !.seen = @ \cup {kind}, !.stopped = IF kind = "stop" THEN e.r ELSE @] :
     t \in {t \in Settle(s, e.s.pop) : /\ On("G01", kind \notin t.seen)
                                       /\ SnapOk(t, e.s)
                                       /\ On("G01", kind = "mup" => e.k = t.g + 1)
                                       /\ On("G07", kind = "mup" => e.k = t.g + 1)}}
(* ---- the end ---- *)
Sols(s, e) ==
  LET best == Optimal(IF s.r.keep THEN s.arch ELSE ToSet(CFs(s.pop)))
  IN /\ On("G06", s.r.vary \/ (ToSet(CFs(e.sols)) = best /\ Len(e.sols) = Cardinality({x[1] : x \in best})))
     /\ On("G06", CFs(e.mem) = CFs(e.sols))
     /\ On("G06", Cardinality({e.sols[i].c : i \in 1..Len(e.sols)}) = Len(e.sols))
     /\ On("G02", \A i \in 1..Len(e.sols) : e.sols[i].ev /\ (s.r.vary \/ e.sols[i].f = FOf(s, e.sols[i].c)))
     /\ On("G05", \A i \in 1..Len(e.sols) : Known(s, e.sols[i].c))
SettingsOk(s, st) == /\ st.max = s.r.max /\ st.n = s.r.n /\ st.keep = s.r.keep /\ st.pc = s.r.pc
Ret(s, e) ==
  {[Idle EXCEPT !.ph = "idle"] :
     t \in {t \in Settle(s, e.s.pop) :
              /\ On("G01", Reported(t) /\ (t.stopped \/ t.g + 1 = Limit(t.r)))
              /\ On("G01", e.s.g = t.g /\ e.s.e = t.ev /\ CFs(e.s.pop) = CFs(t.pop) /\ e.s.max = t.r.max)
              /\ On("G01", t.r.met => e.k = t.g + 1)
              /\ On("G02", e.s.fm = [i \in 1..Len(e.s.pop) |-> e.s.pop[i].f] /\ CFs(e.s.pop) = CFs(t.pop))
              /\ On("G03", e.s.e = t.ev)
              /\ On("G07", SettingsOk(t, e.st) /\ e.s.g = t.g /\ e.s.e = t.ev)
              /\ On("G01", SettingsOk(t, e.st))
              /\ Sols(t, e)}}
Throw(s, e) == {[s EXCEPT !.ph = "fail"]}
Exc(s, e) == IF s.ph = "fail" /\ On("G07", e.same /\ SettingsOk(s, e.st)) /\ On("G01", e.st.max = s.r.max) THEN {Idle} ELSE {}
(* ---- all together ---- *)
Step(s, e) ==
  IF e.op = "run" THEN IF s.ph = "idle" THEN Run(e) ELSE {}
  ELSE IF e.op = "chrom" THEN IF s.ph = "idle" THEN {} ELSE Chrom(s, e)
  ELSE IF e.op = "throw" THEN IF s.ph = "idle" THEN {} ELSE Throw(s, e)
  ELSE IF e.op = "exc" THEN Exc(s, e)
  ELSE IF s.ph = "fail" THEN IF e.op = "ret" THEN {} ELSE {s}             \* whatever was under way when something failed
  ELSE IF e.op = "init" THEN InitPop(s, e)
  ELSE IF e.op \in {"ainit", "sinit", "minit"} THEN {s}
  ELSE IF e.op = "ret" THEN Ret(s, e)
  ELSE IF e.op \in {"mup", "cb", "stop"} THEN Report(s, e.op, e)
  ELSE IF e.op = "fit" /\ s.ph = "init" THEN FitInit(s, e)
  ELSE UNION {CASE e.op = "prep" -> Prep(t, e)
                [] e.op = "sel" -> Sel(t, e)
                [] e.op = "xo" -> Xo(t, e)
                [] e.op = "mut" -> Mut(t, e)
                [] e.op = "rep" -> Rep(t, e)
                [] e.op = "fit" -> Fit(t, e)
                [] e.op = "next" -> NextPop(t, e)
                [] OTHER -> {} : t \in Begin(s)}
=============================================================================
