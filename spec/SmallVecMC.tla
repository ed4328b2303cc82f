----------------------------- MODULE SmallVecMC -----------------------------
(* All operations at every length and storage mode (inline, grown, reserved,*)
(* shrunk back); prints one test per transition.                            *)
EXTENDS SmallVec, FiniteSets, TLC, Json, IOUtils
CONSTANTS Inline, MaxLen, MaxCount
VARIABLES q, mode, n, hist
vars == <<q, mode, n, hist>>
View == <<Len(q), mode>>
Vs(k, b) == [i \in 1..k |-> b + i]
Emit(h) == IF IOEnv.GEN = "1" THEN PrintT(<<"GEN", ToJson(h)>>) ELSE TRUE
C == 0..MaxCount
P == 0..Len(q)
Ops == {<<"newn", k>> : k \in C} \cup {<<"newv", k, n>> : k \in C}
  \cup {<<o>> \o Vs(k, n) : o \in {"list", "input", "ilist", "assign", "assigninput"}, k \in C}
  \cup {<<"assignn", k, n>> : k \in C}
  \cup {<<o, n>> : o \in {"pb", "pbm", "eb"}}
  \cup {<<"resize", k>> : k \in 0..MaxLen} \cup {<<"resizev", k, n>> : k \in 0..MaxLen}
  \cup {<<o, p, n>> : o \in {"ins", "insm", "emplace"}, p \in P}
  \cup {<<"insn", p, k, n>> : p \in P, k \in C}
  \cup {<<o, p>> \o Vs(k, n) : o \in {"insr", "insinput", "insil"}, p \in P, k \in C}
  \cup {<<"erase", p, r>> : p \in P, r \in P} \cup {<<o>> : o \in {"clear", "reset", "shrink", "copyctor", "movector", "selfassign"}}
  \cup {<<"reserve", k>> : k \in {Inline, Inline + 1, MaxLen}}
  \cup (IF q = <<>> THEN {} ELSE {<<"popb">>} \cup {<<"pbself", i>> : i \in 0..(Len(q)-1)} \cup {<<"erase1", p>> : p \in 0..(Len(q)-1)}
       \cup {<<"insself", p, i>> : p \in P, i \in {0, Len(q) - 1}} \cup {<<"insnself", p, k, i>> : p \in P, k \in {2}, i \in {0, Len(q) - 1}}
       \cup {<<"resizeself", k, i>> : k \in {Len(q) + 1, MaxLen + 2}, i \in {0, Len(q) - 1}})
Legal(op) == op[1] = "erase" => op[2] <= op[3]
Init == q = <<>> /\ mode = "inline" /\ n = 1 /\ hist = <<<<"new">>>>
Next == \E op \in Ops : Legal(op) /\
  LET r == Result(op[1], q, <<>>, Tail(op)) IN
  /\ Len(r) <= MaxLen + MaxCount + 2
  /\ hist' = Append(hist, op) /\ Emit(hist')
  /\ Len(r) <= MaxLen /\ q' = r
  /\ mode' = CASE op[1] \in {"reset", "newn", "newv", "list", "input", "copyctor"} -> (IF Len(r) > Inline THEN "exact" ELSE "inline")
               [] op[1] = "shrink" -> (IF Len(r) > Inline THEN "exact" ELSE mode)
               [] op[1] = "reserve" -> (IF op[2] > Inline \/ mode # "inline" THEN "reserved" ELSE mode)
               [] Len(r) > Inline /\ mode = "inline" -> "grown"
               [] OTHER -> mode
  /\ n' = n + MaxCount
Spec == Init /\ [][Next]_vars
(* Laws of the specification *)
Laws == \A p \in P, k \in C :
   /\ Len(InsertAtPos(q, p, Vs(k, n))) = Len(q) + k
   /\ EraseRange(InsertAtPos(q, p, Vs(k, n)), p, p + k) = q
   /\ \A r \in p..Len(q) : EraseRange(q, p, r) \o <<>> = SubSeq(q, 1, p) \o SubSeq(q, r + 1, Len(q))
=============================================================================
