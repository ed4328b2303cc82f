-------------------------------- MODULE GaMC --------------------------------
(* A design of the solver's generation loop (the flags, the cache, the archive merged generation by generation),     *)
(* checked against what a user relies on, stated over the ghost history of everything that was a population member. *)
(* Its complete behaviours are replayed on the code (harness garun --ops) and judged by GaRun.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils, FifoCache
CONSTANTS N, MaxGen, Caches, Tabs, Dyns, Wide
Picks == IF Wide THEN {q \in (1..2*N) \X (1..2*N) : q[1] # q[2]} ELSE {<<3, 4>>, <<1, 3>>, <<1, 2>>, <<4, 1>>}
Pre == {<<0, 1>>, <<2, 2>>}
Chs == 0..2
Table == <<[c \in Chs |-> <<c>>], [c \in Chs |-> IF c = 0 THEN <<0, 1>> ELSE IF c = 1 THEN <<1, 0>> ELSE <<1, 1>>], [c \in Chs |-> <<c, 2 - c>>]>>
VARIABLES cfg, pop, cache, sols, evals, g, done, seen, calls, hist
vars == <<cfg, pop, cache, sols, evals, g, done, seen, calls, hist>>
View == <<cfg, pop, cache, sols, g, done, seen, evals>>
F(c) == Table[cfg.tab][c]
Dom(f, h) == (\A k \in DOMAIN f : f[k] >= h[k]) /\ (\E k \in DOMAIN f : f[k] > h[k])
Opt(S) == {x \in S : \A y \in S : ~Dom(y.f, x.f)}
Cand(c) == [c |-> c, f |-> F(c)]
Init ==
  \E m \in MaxGen, dyn \in Dyns, ca \in Caches, keep \in {FALSE, TRUE}, rep \in {FALSE, TRUE}, tab \in Tabs, p \in Pre, e \in {0, 1, 2} :
    LET ev == [i \in 1..N |-> e = 1 \/ (e = 2 /\ i % 2 = 0)]
        c == [m |-> m, dyn |-> dyn, cap |-> IF dyn THEN 0 ELSE ca * N, keep |-> keep, rep |-> rep, tab |-> tab]
        f(x) == Table[tab][x]
        pp == [i \in 1..N |-> [c |-> p[i], f |-> f(p[i])]]
    IN /\ cfg = c /\ pop = pp /\ cache = Empty(c.cap) /\ g = 0
       /\ sols = IF keep THEN {x \in ToSet(pp) : \A y \in ToSet(pp) : ~Dom(y.f, x.f)} ELSE {}
       /\ evals = Cardinality({i \in 1..N : dyn \/ ~ev[i]}) /\ calls = 1 + evals
       /\ seen = ToSet(pp) /\ done = FALSE
       /\ hist = <<<<"run", N, m, dyn, ca, keep, rep, tab - 1>> \o FlattenSeq([i \in 1..N |-> <<p[i], IF ev[i] THEN 1 ELSE 0>>])>>
Stop == /\ ~done /\ g + 1 >= cfg.m /\ done' = TRUE /\ UNCHANGED <<cfg, pop, cache, sols, evals, g, seen, calls, hist>>
Early == /\ ~done /\ g + 1 < cfg.m /\ done' = TRUE
         /\ hist' = IF Len(hist) > 1 THEN [hist EXCEPT ![Len(hist)][Len(hist[Len(hist)])] = 1] ELSE Append(hist, <<"gen", "stop", 1>>)
         /\ UNCHANGED <<cfg, pop, cache, sols, evals, g, seen, calls>>
Fix(c) == IF cfg.rep /\ c = 2 THEN 0 ELSE c
Gen ==
  /\ ~done /\ g + 1 < cfg.m /\ N = 2
  /\ \E i \in 1..N : \E j \in i..N : \E x \in {"ab", "ba", "aa", "0", "1", "2"}, mu \in {<<9, 9>>, <<0, 9>>, <<9, 1>>, <<2, 2>>} :
       LET a == pop[i]
           b == pop[j]
           xs == CASE x = "ab" -> <<a.c, b.c>> [] x = "ba" -> <<b.c, a.c>> [] x = "aa" -> <<a.c, a.c>>
                   [] x = "0" -> <<0, b.c>> [] x = "1" -> <<a.c, 1>> [] OTHER -> <<2, 2>>
           same == a.c = b.c                                    \* equal parents are not recombined
           x1 == IF same THEN <<a.c, a.c>> ELSE xs
           e1 == [k \in 1..N |-> x1[k] \in {a.c, b.c}]          \* the fitness of an equal parent is inherited
           x2 == [k \in 1..N |-> IF mu[k] = 9 THEN x1[k] ELSE mu[k]]
           e2 == [k \in 1..N |-> e1[k] /\ x2[k] = x1[k]]
           x3 == [k \in 1..N |-> Fix(x2[k])]
           e3 == [k \in 1..N |-> e2[k] /\ x3[k] = x2[k]]
           need == {k \in 1..N : cfg.dyn \/ (~e3[k] /\ ~Has(cache, x3[k]))}
           kids == [k \in 1..N |-> [c |-> x3[k], f |-> IF k \in need THEN F(x3[k]) ELSE IF e3[k] THEN (IF x3[k] = a.c THEN a.f ELSE b.f) ELSE Get(cache, x3[k])]]
           all == pop \o kids
           nc == IF cfg.dyn THEN cache ELSE InsertRange(cache, [k \in 1..N |-> <<pop[k].c, pop[k].f>>])
           nn == Cardinality(need)
           op == <<"gen", "sel", i - 1, j - 1>> \o (IF same THEN <<>> ELSE <<"xo", xs[1], xs[2]>>) \o <<"mut", x2[1], x2[2]>>
                                  \o (IF cfg.rep THEN <<"rep", x3[1], x3[2]>> ELSE <<>>)
       IN \E pk \in Picks : LET np == [k \in 1..N |-> all[pk[k]]] IN
          /\ pop' = np
          /\ cache' = nc
          /\ sols' = IF cfg.keep THEN Opt(sols \cup ToSet(np)) ELSE {}
          /\ evals' = evals + nn /\ calls' = calls + nn
          /\ g' = g + 1 /\ seen' = seen \cup ToSet(np)
          /\ hist' = Append(hist, op \o <<"next", pk[1] - 1, pk[2] - 1, "stop", 0>>)
          /\ UNCHANGED <<cfg, done>>
Next == Stop \/ Early \/ Gen
Spec == Init /\ [][Next]_vars
(* What the user relies on *)
FitnessIntegrity == \A i \in 1..N : pop[i].f = F(pop[i].c)
CacheSound == /\ Bounded(cache) /\ UniqueKeys(cache) /\ \A i \in 1..Len(cache.ents) : cache.ents[i][2] = F(cache.ents[i][1])
Solutions == LET s == IF cfg.keep THEN sols ELSE Opt(ToSet(pop)) IN
  /\ s = Opt(IF cfg.keep THEN seen ELSE ToSet(pop))
  /\ s # {} /\ \A x, y \in s : ~Dom(x.f, y.f)
Counted == evals = calls - 1 /\ g < cfg.m
Emit == done /\ IOEnv.GEN = "1" => PrintT(<<"GEN", ToJson(hist)>>)
Inv == FitnessIntegrity /\ CacheSound /\ Solutions /\ Counted /\ Emit
=============================================================================
