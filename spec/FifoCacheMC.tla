---------------------------- MODULE FifoCacheMC ----------------------------
(* Exhaustive model of one cache: every reachable content for small keys,   *)
(* values and capacities. `born` stamps insertions so that "the entries     *)
(* inserted first are discarded" can be stated without looking at `ents`.   *)
(* With GEN=1 prints one operation sequence per transition.                 *)
EXTENDS FifoCache, Integers, TLC, Json, IOUtils
CONSTANTS Keys, Vals, MaxCap
VARIABLES c, rot, born, clock, last, hist
vars == <<c, rot, born, clock, last, hist>>
View == <<c, rot>>

Pairs == Keys \X Vals
Ranges == {<<>>} \cup {<<p>> : p \in Pairs} \cup {<<p, q>> : p \in Pairs, q \in Pairs}
          \cup {<<p, q, r>> : p \in Keys \X {1}, q \in Keys \X {1}, r \in Keys \X {2}}
Ops == {<<"ins", p[1], p[2]>> : p \in Pairs} \cup {<<"tryins", p[1], p[2]>> : p \in Pairs}
       \cup {<<"range", r>> : r \in Ranges} \cup {<<"reset", n>> : n \in 0..MaxCap}
       \cup {<<"clear">>, <<"copyctor">>, <<"movector">>, <<"selfcopy">>}
Apply(d, op) ==
  CASE op[1] = "ins" -> Insert(d, op[2], op[3])
    [] op[1] = "tryins" -> TryInsert(d, op[2], op[3])
    [] op[1] = "range" -> InsertRange(d, op[2])
    [] op[1] = "reset" -> Reset(d, op[2])
    [] op[1] = "clear" -> Clear(d)
    [] OTHER -> d                      \* the cache is replaced by a copy of itself
Emit(h) == IF IOEnv.GEN = "1" THEN PrintT(<<"GEN", ToJson(h)>>) ELSE TRUE
Flat(op) == IF op[1] = "range" THEN <<"range", Len(op[2])>> \o FlattenSeq(op[2]) ELSE op

Init == /\ \E n \in 0..MaxCap : c = Empty(n) /\ hist = <<<<"new", n>>>>
        /\ rot = 0 /\ clock = 0 /\ born = [k \in Keys |-> -1] /\ last = "new"
Next == \E op \in Ops :
  /\ c' = Apply(c, op)
  /\ hist' = Append(hist, Flat(op)) /\ Emit(hist')
  /\ last' = op[1]
  /\ clock' = clock + 1
  \* single insertions stamp the key they insert; composite operations renumber by content order
  /\ born' = IF op[1] \in {"ins", "tryins"}
             THEN [k \in Keys |-> IF Has(c', k) THEN (IF Has(c, k) THEN born[k] ELSE clock) ELSE -1]
             ELSE [k \in Keys |-> IF Has(c', k) THEN (CHOOSE i \in Pos(c', k) : TRUE) - 10 ELSE -1]
  \* how far the implementation's ring has turned: only there to multiply the generated tests
  /\ rot' = IF op[1] \in {"ins", "tryins"} /\ c'.cap > 0 /\ c' # c /\ Len(c.ents) = c.cap
            THEN (rot + 1) % c.cap ELSE IF op[1] \in {"reset", "clear"} THEN 0
            ELSE IF op[1] = "copyctor" THEN 7 ELSE IF op[1] = "movector" THEN 8 ELSE IF op[1] = "selfcopy" THEN 9 ELSE rot
Spec == Init /\ [][Next]_vars

Inv == Bounded(c) /\ UniqueKeys(c)
(* A single insertion discards at most one entry, the one inserted first, and only when full *)
EvictOldest == [][(last' \in {"ins", "tryins"}) =>
     \A k \in Keys : (Has(c, k) /\ ~Has(c', k)) =>
        /\ Len(c.ents) = c.cap
        /\ \A j \in Keys : Has(c', j) => born'[j] > born[k]]_vars
=============================================================================
