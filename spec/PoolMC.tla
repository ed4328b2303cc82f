------------------------------- MODULE PoolMC -------------------------------
(* The thread pool: loops are cut into tasks that go to the workers' queues in turn, the caller processes the last    *)
(* part itself; a caller that is a worker empties its own queue while it waits for the rest, another caller just waits.*)
(* Indices of the outermost loops start nested loops as Nest says.  Every thread is a stack of frames.                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, C, N1, N2                       \* workers, callers, length of outer and of nested loops
Workers == 1..W
Callers == (W + 1)..(W + C)
T == Workers \cup Callers
VARIABLES q, turn, stk, lp
vars == <<q, turn, stk, lp>>
\* lp[l]: [n, left (tasks), runs (index -> number of runs), depth, back]; a frame: [k |-> "task"|"loop", l, i, last]
Cut(n) == LET c == IF W = 0 THEN 1 ELSE IF n < W THEN n ELSE W IN
          [j \in 1..c |-> LET base == n \div c rem == n % c
                              From(x) == (x - 1) * base + (IF x - 1 < rem THEN x - 1 ELSE rem) IN <<From(j), IF j = c THEN n ELSE From(j + 1)>>]
Init == /\ q = [w \in Workers |-> <<>>] /\ turn = 0 /\ lp = <<>>
        /\ stk = [t \in T |-> IF t \in Callers THEN <<[k |-> "start", l |-> 0, i |-> 0, last |-> 0]>> ELSE <<>>]
Top(t) == stk[t][Len(stk[t])]
Pop(t) == SubSeq(stk[t], 1, Len(stk[t]) - 1)
\* a loop is started: all its tasks but the last are queued, one after the other, then the caller works
Enter(t, n, depth, under) ==
  LET l == Len(lp) + 1
      c == Cut(n)
  IN /\ lp' = Append(lp, [n |-> n, left |-> Len(c) - 1, runs |-> [i \in 0..(n - 1) |-> 0], depth |-> depth, open |-> TRUE])
     /\ stk' = [stk EXCEPT ![t] = under \o <<[k |-> "push", l |-> l, i |-> 1, last |-> Len(c)]>>]
Step(t) ==
  /\ stk[t] # <<>>
  /\ LET f == Top(t) IN
     \/ f.k = "start" /\ Enter(t, N1, 1, Pop(t)) /\ UNCHANGED <<q, turn>>
     \/ f.k = "push" /\ f.i < f.last /\ LET w == (turn % W) + 1 c == Cut(lp[f.l].n)[f.i] IN
           q' = [q EXCEPT ![w] = Append(@, [k |-> "task", l |-> f.l, i |-> c[1], last |-> c[2]])] /\ turn' = (turn + 1) % W
           /\ stk' = [stk EXCEPT ![t][Len(stk[t])].i = f.i + 1] /\ UNCHANGED lp
     \/ f.k = "push" /\ f.i = f.last /\ LET c == Cut(lp[f.l].n)[f.last] IN
           stk' = [stk EXCEPT ![t] = Pop(t) \o <<[k |-> "own", l |-> f.l, i |-> c[1], last |-> c[2]]>>] /\ UNCHANGED <<q, turn, lp>>
     \/ f.k \in {"task", "own"} /\ f.i < f.last /\ UNCHANGED <<q, turn>>           \* the body of index i, which may run a loop of its own
        /\ LET l2 == [lp EXCEPT ![f.l].runs[f.i] = @ + 1]
               up == [stk EXCEPT ![t][Len(stk[t])].i = f.i + 1]
           IN IF lp[f.l].depth = 1 /\ N2 > 0
              THEN /\ lp' = Append(l2, [n |-> N2, left |-> Len(Cut(N2)) - 1, runs |-> [i \in 0..(N2 - 1) |-> 0], depth |-> 2, open |-> TRUE])
                   /\ stk' = [up EXCEPT ![t] = Append(@, [k |-> "push", l |-> Len(lp) + 1, i |-> 1, last |-> Len(Cut(N2))])]
              ELSE lp' = l2 /\ stk' = up
     \/ f.k = "task" /\ f.i = f.last /\ lp' = [lp EXCEPT ![f.l].left = @ - 1] /\ stk' = [stk EXCEPT ![t] = Pop(t)] /\ UNCHANGED <<q, turn>>
     \/ f.k = "own" /\ f.i = f.last /\ stk' = [stk EXCEPT ![t] = Pop(t) \o <<[f EXCEPT !.k = "join"]>>] /\ UNCHANGED <<q, turn, lp>>
     \/ f.k = "join" /\ t \in Workers /\ q[t] # <<>> /\ stk' = [stk EXCEPT ![t] = Append(@, Head(q[t]))] /\ q' = [q EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<turn, lp>>
     \/ f.k = "join" /\ lp[f.l].left = 0 /\ lp' = [lp EXCEPT ![f.l].open = FALSE] /\ stk' = [stk EXCEPT ![t] = Pop(t)] /\ UNCHANGED <<q, turn>>
Take(w) == stk[w] = <<>> /\ q[w] # <<>> /\ stk' = [stk EXCEPT ![w] = <<Head(q[w])>>] /\ q' = [q EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<turn, lp>>
Next == (\E t \in T : Step(t)) \/ (\E w \in Workers : Take(w))
Spec == Init /\ [][Next]_vars
AtMostOnce == \A l \in DOMAIN lp : \A i \in DOMAIN lp[l].runs : lp[l].runs[i] <= 1
DoneMeansAll == \A l \in DOMAIN lp : ~lp[l].open => \A i \in DOMAIN lp[l].runs : lp[l].runs[i] = 1
\* when a loop has returned no task of it is queued or running
Quiet == \A l \in DOMAIN lp : ~lp[l].open => /\ (\A t \in T : \A j \in DOMAIN stk[t] : stk[t][j].l # l)
                                              /\ (\A w \in Workers : \A x \in DOMAIN q[w] : q[w][x].l # l)
NoDeadlock == (~ENABLED Next) => \A t \in T : stk[t] = <<>>
=============================================================================
