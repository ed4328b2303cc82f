-------------------------------- MODULE Hist --------------------------------
(* What stop conditions and metrics report over a history of populations (matrices of fitness values).              *)
(* A stop condition is a list of nodes in postfix order; a stall condition's state is the best value so far and the *)
(* number of consecutive generations without improvement.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANT Props
On(p, c) == (p \in Props) => c
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Col(fm, k) == [i \in 1..Len(fm) |-> fm[i][k]]
MaxOf(q) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, q[1], q)
MinOf(q) == FoldLeft(LAMBDA a, b : IF a < b THEN a ELSE b, q[1], q)
Abs(x) == IF x < 0 THEN -x ELSE x
NoBest == -100000000
(* ---- stop conditions ---- *)
Leaf0(node, d) == [best |-> [k \in 1..d |-> NoBest], idle |-> 0]
(* the statistic of a stall condition in units that make it an integer, and the required improvement in the same units *)
Stat(node, fm) == [k \in 1..Len(fm[1]) |-> 16 * (IF node.k = "mean" THEN SumSeq(Col(fm, k)) ELSE MaxOf(Col(fm, k)))]
Need(node, n) == (IF node.k = "mean" THEN node.d * n ELSE node.d) + node.t
Advance(node, st, fm) ==
  IF node.k \notin {"mean", "best"} THEN st
  ELSE LET v == Stat(node, fm)
           dl == Need(node, Len(fm))
           better == {k \in DOMAIN v : st.best[k] = NoBest \/ v[k] >= st.best[k] + dl}
       IN [best |-> [k \in DOMAIN v |-> IF k \in better THEN v[k] ELSE st.best[k]], idle |-> IF better = {} THEN st.idle + 1 ELSE 0]
(* which answers of the individual conditions hold in this generation; `u` maps user conditions to their answer *)
Holds(node, st, fm, e, u) ==
  CASE node.k = "evals" -> e >= node.a
    [] node.k = "value" -> \E i \in 1..Len(fm) : \A k \in 1..Len(node.t) : 2 * fm[i][k] >= node.t[k]
    [] node.k \in {"mean", "best"} -> st.idle > node.p
    [] node.k = "user" -> u[node.u + 1]
    [] OTHER -> FALSE
RECURSIVE Truth(_, _, _)
Truth(nodes, ls, i) ==
  LET x == nodes[i] IN
  CASE x.k = "and" -> Truth(nodes, ls, x.l) /\ Truth(nodes, ls, x.r)
    [] x.k = "or" -> Truth(nodes, ls, x.l) \/ Truth(nodes, ls, x.r)
    [] x.k = "not" -> ~Truth(nodes, ls, x.l)
    [] OTHER -> ls[i]
(* ---- metrics ---- *)
Dominates(f, g) == (\A k \in DOMAIN f : f[k] >= g[k]) /\ (\E k \in DOMAIN f : f[k] > g[k])
FrontOf(fm) == {fm[i] : i \in {i \in 1..Len(fm) : \A j \in 1..Len(fm) : ~Dominates(fm[j], fm[i])}}
Cols(fm, Op(_)) == [k \in 1..Len(fm[1]) |-> Op(Col(fm, k))]
Nadir(fm) == [k \in 1..Len(fm[1]) |-> CHOOSE x \in {f[k] : f \in FrontOf(fm)} : \A f \in FrontOf(fm) : x <= f[k]]
VarN(q) == IF Len(q) = 1 THEN 0 ELSE Len(q) * SumSeq([i \in 1..Len(q) |-> q[i] * q[i]]) - SumSeq(q) * SumSeq(q)      \* n(n-1) times the sample variance
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= 2
(* the volume between the reference point (given twice) and the union of the boxes below the points, in units of 1/2^d:
   the grid has lines at all halves *)
Prod(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
Pow2(d) == Prod([k \in 1..d |-> 2])
RECURSIVE Vol(_, _, _)
(* P: a set of points (doubled coordinates), r: the doubled reference point, d: the number of coordinates that are left *)
Vol(P, r, d) ==
  IF P = {} THEN 0
  ELSE IF d = 1 THEN Max({p[1] : p \in P} \cup {r[1]}) - r[1]
  ELSE LET zs == {p[d] : p \in P} \cup {r[d]}
           hs == SetToSortSeq({z \in zs : z >= r[d]}, <)
       IN SumSeq([i \in 1..(Len(hs) - 1) |-> (hs[i + 1] - hs[i]) * Vol({p \in P : p[d] >= hs[i + 1]}, r, d - 1)])
Twice(f) == [k \in DOMAIN f |-> 2 * f[k]]
Volume(fm, r2) == Vol({Twice(fm[i]) : i \in 1..Len(fm)}, r2, Len(r2))        \* in units of 1/2^d
HvOk(x, fm, r2) == x * Pow2(Len(r2)) = 32 * Volume(fm, r2)
Worst(fms) == [k \in 1..Len(fms[1][1]) |-> 2 * MinOf([i \in 1..Len(fms) |-> MinOf(Col(fms[i], k))])]
(* ms: what the metrics hold after the generations fms, with the evaluation counts es *)
MetricsOk(ms, fms, es, r) ==
  LET n == Len(fms)
      has(x) == x \in {r.tracked[i] : i \in 1..Len(r.tracked)}
      rows(name, P(_, _)) == has(name) => (Len(ms[name]) = n /\ \A g \in 1..n : P(ms[name][g], fms[g]))
      c == 1000
  IN /\ On("M01", \A x \in {"min", "max", "mean", "var", "sd", "nadir", "evals", "hv", "ahv"} : has(x) <=> (x \in DOMAIN ms))
     /\ On("M01", {ms.null[i] : i \in 1..Len(ms.null)} = {"min", "max", "mean", "var", "sd", "nadir", "evals", "hv", "ahv"} \ {r.tracked[i] : i \in 1..Len(r.tracked)})
     /\ On("M01", rows("min", LAMBDA v, fm : v = Cols(fm, MinOf)))
     /\ On("M01", rows("max", LAMBDA v, fm : v = Cols(fm, MaxOf)))
     /\ On("M01", rows("mean", LAMBDA v, fm : Near(v, Cols(fm, LAMBDA q : c * SumSeq(q)))))
     /\ On("M01", rows("var", LAMBDA v, fm : Near(v, Cols(fm, LAMBDA q : c * VarN(q)))))
     /\ On("M01", rows("sd", LAMBDA v, fm : Near(v, Cols(fm, LAMBDA q : c * VarN(q)))))
     /\ On("M01", rows("nadir", LAMBDA v, fm : v = Nadir(fm)))
     /\ On("M01", has("evals") => (Len(ms.evals) = n /\ \A g \in 1..n : ms.evals[g] = es[g] - (IF g = 1 THEN 0 ELSE es[g - 1])))
     /\ On("M01", rows("hv", LAMBDA v, fm : TRUE)) /\ On("M01", rows("ahv", LAMBDA v, fm : TRUE))
     /\ On("M02", rows("hv", LAMBDA v, fm : HvOk(v, fm, r.ref)))
     /\ On("M02", n > 0 => LET w == Worst(fms) IN rows("ahv", LAMBDA v, fm : HvOk(v, fm, w)))
(* ---- a run ---- *)
Idle == [ph |-> "idle", r |-> [n |-> 0], ls |-> <<>>, us |-> <<>>, called |-> {}, held |-> FALSE, fms |-> <<>>, es |-> <<>>, g |-> -1, open |-> FALSE]
Run(e) == [Idle EXCEPT !.ph = "run", !.r = e, !.ls = [i \in 1..Len(e.nodes) |-> Leaf0(e.nodes[i], e.d)], !.us = [i \in 1..e.users |-> FALSE]]
(* the generation that is open is complete: `held` is whether the condition held in it *)
Close(s) ==
  IF ~s.open THEN s
  ELSE LET fm == s.fms[Len(s.fms)]
           e == s.es[Len(s.es)]
           ls == [i \in 1..Len(s.ls) |-> Advance(s.r.nodes[i], s.ls[i], fm)]
           tv == [i \in 1..Len(ls) |-> Holds(s.r.nodes[i], ls[i], fm, e, s.us)]
       IN [s EXCEPT !.open = FALSE, !.ls = ls, !.held = Truth(s.r.nodes, tv, Len(s.r.nodes)) \/ s.g + 1 >= s.r.max]
AllAsked(s) == s.called = 0..(s.r.users - 1)
StopProps == {"S01", "S02"}
OnStop(c) == (Props \cap StopProps # {}) => c
Step(s, e) ==
  CASE e.op = "run" -> IF s.ph = "idle" THEN {Run(e)} ELSE {}
    [] e.op = "gen" ->
       LET t == Close(s) IN
       IF /\ s.ph = "run" /\ e.g = s.g + 1
          /\ OnStop(s.g >= 0 => (~(t.held /\ t.r.real) /\ AllAsked(s)))
       THEN LET u == [t EXCEPT !.g = e.g, !.fms = Append(@, e.fm), !.es = Append(@, e.e), !.open = TRUE, !.called = {}]
            IN IF "met" \in DOMAIN e THEN (IF MetricsOk([e.met EXCEPT !.null = @], u.fms, u.es, u.r) THEN {u} ELSE {}) ELSE {u}
       ELSE {}
    [] e.op = "user" -> IF OnStop(s.open /\ e.u \notin s.called) THEN {[s EXCEPT !.us[e.u + 1] = e.r, !.called = @ \cup {e.u}]} ELSE {}
    [] e.op = "stop" -> LET t == Close(s) IN IF OnStop(s.open /\ AllAsked(s) /\ e.r = t.held) THEN {t} ELSE {}
    [] e.op = "ret" ->
       LET t == Close(s) IN
       IF /\ OnStop(s.g >= 0 /\ e.g = s.g /\ AllAsked(s))
          /\ OnStop(IF s.r.real THEN t.held ELSE s.g + 1 = s.r.max)
          /\ MetricsOk(e.met, s.fms, s.es, s.r)
       THEN {Idle} ELSE {}
    [] OTHER -> {}
=============================================================================
