------------------------------ MODULE ReproMC -------------------------------
(* The design that makes Repro true: every thread draws from a stream of its own, work is handed to the workers round robin   *)
(* starting from the first at the beginning of a run, a worker performs its work in the order it got it, and a loop returns   *)
(* only when all of it is done (this last, Join, is not needed for Same). Whatever the interleaving of the workers, and whatever is run between two runs, the run that   *)
(* a configuration and a seed produce is always the same. Leaving out any of Reset, Fifo or Own violates Same.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Sizes, Seeds, MaxActs, Reset, Fifo, Own, Join
Workers == 0..(W - 1)
Main == W
VARIABLES str, turn, q, out, key, todo, memo, same, acts
vars == <<str, turn, q, out, key, todo, memo, same, acts>>
(* a stream is what it was seeded with and the number of draws taken from it; stream of a thread, or one for all *)
S(t) == IF Own THEN t ELSE Main
Draw(t) == <<S(t), str[S(t)]>>
Tick(t) == str' = [str EXCEPT ![S(t)] = <<@[1], @[2] + 1>>]
NoKey == <<>>
Init == /\ str = [t \in Workers \cup {Main} |-> <<0, 0>>] /\ turn = 0 /\ q = [w \in Workers |-> <<>>]
        /\ out = <<>> /\ key = NoKey /\ todo = <<>> /\ memo = <<>> /\ same = TRUE /\ acts = 0
Busy == todo # <<>> \/ \E w \in Workers : q[w] # <<>>
(* a configuration is the sequence of the sizes of its loops *)
Start(c, sd) == /\ key = NoKey /\ ~Busy /\ acts < MaxActs
                /\ str' = IF sd = 0 THEN str ELSE [t \in DOMAIN str |-> <<sd, 0>>]
                /\ key' = <<c, sd>> /\ todo' = c /\ out' = <<>> /\ turn' = IF Reset THEN 0 ELSE turn
                /\ acts' = acts + 1 /\ UNCHANGED <<q, memo, same>>
Assign(k) == [w \in Workers |-> LET mine == {i \in 1..k : (turn + i - 1) % W = w}
                                    RECURSIVE L(_)
                                    L(M) == IF M = {} THEN <<>> ELSE LET m == CHOOSE m \in M : \A x \in M : m <= x IN <<m>> \o L(M \ {m})
                                IN L(mine)]
Loop == /\ todo # <<>> /\ (Join => \A w \in Workers : q[w] = <<>>)
        /\ LET a == Assign(Head(todo)) IN q' = [w \in Workers |-> q[w] \o [i \in 1..Len(a[w]) |-> <<Len(todo), a[w][i]>>]]
        /\ turn' = (turn + Head(todo)) % W /\ todo' = Tail(todo)
        /\ UNCHANGED <<str, out, key, memo, same, acts>>
(* between two loops the main thread draws as well *)
Take(w, i) == /\ i \in 1..Len(q[w]) /\ (Fifo => i = 1)
              /\ out' = (q[w][i] :> Draw(w)) @@ out
              /\ Tick(w) /\ q' = [q EXCEPT ![w] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
              /\ UNCHANGED <<turn, key, todo, memo, same, acts>>
Finish == /\ key # NoKey /\ ~Busy
          /\ key' = NoKey /\ out' = <<>>
          /\ IF key[2] = 0 THEN UNCHANGED <<memo, same>>
             ELSE IF key \in DOMAIN memo THEN same' = (same /\ memo[key] = out) /\ UNCHANGED memo
             ELSE memo' = (key :> out) @@ memo /\ UNCHANGED same
          /\ Tick(Main) /\ UNCHANGED <<turn, q, todo, acts>>
Next == \/ \E c \in [1..2 -> Sizes], sd \in Seeds \cup {0} : Start(c, sd)
        \/ Loop
        \/ \E w \in Workers : \E i \in 1..Len(q[w]) : Take(w, i)
        \/ Finish
Spec == Init /\ [][Next]_vars
Same == same
=============================================================================
