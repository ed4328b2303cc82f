------------------------------- MODULE RcuMC --------------------------------
(* The read-copy-update scheme on a machine with store buffers (every thread's stores become visible later and in     *)
(* order; exchanges, compare-exchanges and full fences wait until the own buffer is empty).                           *)
(* Fenced = FALSE leaves the full fences out; Safe must then fail (this is checked as well, see registry.py).         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Writers, Sections, Updates, Fenced
T == Readers \cup Writers
NR == 99                                   \* "not reading"
VARIABLES mem, buf, pc, n, reg, freed, left, next
\* mem: shared memory; buf[t]: pending stores <<address, value>>; reg[t]: registers of a thread
vars == <<mem, buf, pc, n, reg, freed, left, next>>
Addr == {"ptr", "we"} \cup Readers         \* the object pointer, the writers' epoch, every reader's epoch
Fwd(t, a) == LET H == {i \in DOMAIN buf[t] : buf[t][i][1] = a}
             IN IF H = {} THEN mem[a] ELSE buf[t][CHOOSE i \in H : \A j \in H : j <= i][2]
Init == /\ mem = [a \in Addr |-> IF a \in Readers THEN NR ELSE 0]
        /\ buf = [t \in T |-> <<>>] /\ pc = [t \in T |-> "idle"] /\ n = [t \in T |-> 0]
        /\ reg = [t \in T |-> [e |-> 0, p |-> 0, c |-> 0]] /\ freed = {} /\ left = [t \in T |-> {}] /\ next = 1
Drain(t) == /\ buf[t] # <<>> /\ mem' = [mem EXCEPT ![buf[t][1][1]] = buf[t][1][2]] /\ buf' = [buf EXCEPT ![t] = Tail(@)]
            /\ UNCHANGED <<pc, n, reg, freed, left, next>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
St(t, a, v) == buf' = [buf EXCEPT ![t] = Append(@, <<a, v>>)] /\ UNCHANGED mem
Read(t) ==
  \/ pc[t] = "idle" /\ n[t] < Sections /\ Go(t, "ann") /\ reg' = [reg EXCEPT ![t].e = Fwd(t, "we")] /\ UNCHANGED <<mem, buf, n, freed, left, next>>
  \/ pc[t] = "ann" /\ St(t, t, reg[t].e) /\ Go(t, "fence") /\ UNCHANGED <<n, reg, freed, left, next>>
  \/ pc[t] = "fence" /\ (Fenced => buf[t] = <<>>) /\ Go(t, "load") /\ UNCHANGED <<mem, buf, n, reg, freed, left, next>>
  \/ pc[t] = "load" /\ Go(t, "use") /\ reg' = [reg EXCEPT ![t].p = Fwd(t, "ptr")] /\ UNCHANGED <<mem, buf, n, freed, left, next>>
  \/ pc[t] = "use" /\ St(t, t, NR) /\ Go(t, "idle") /\ n' = [n EXCEPT ![t] = @ + 1] /\ UNCHANGED <<reg, freed, left, next>>
Write(t) ==
  \/ pc[t] = "idle" /\ n[t] < Updates /\ buf[t] = <<>> /\ Go(t, "sync") /\ reg' = [reg EXCEPT ![t].p = mem["ptr"]]
       /\ mem' = [mem EXCEPT !["ptr"] = next] /\ next' = next + 1 /\ UNCHANGED <<buf, n, freed, left>>
  \/ pc[t] = "sync" /\ Go(t, "cas") /\ reg' = [reg EXCEPT ![t].c = Fwd(t, "we")] /\ UNCHANGED <<mem, buf, n, freed, left, next>>
  \/ pc[t] = "cas" /\ buf[t] = <<>> /\ Go(t, "wait") /\ mem' = [mem EXCEPT !["we"] = IF @ = reg[t].c THEN @ + 1 ELSE @]
       /\ left' = [left EXCEPT ![t] = Readers] /\ UNCHANGED <<buf, n, reg, freed, next>>
  \/ pc[t] = "wait" /\ \E r \in left[t] : mem[r] >= reg[t].c + 1 /\ left' = [left EXCEPT ![t] = @ \ {r}] /\ UNCHANGED <<mem, buf, pc, n, reg, freed, next>>
  \/ pc[t] = "wait" /\ left[t] = {} /\ freed' = freed \cup {reg[t].p} /\ Go(t, "idle") /\ n' = [n EXCEPT ![t] = @ + 1] /\ UNCHANGED <<mem, buf, reg, left, next>>
Next == \E t \in T : Drain(t) \/ (t \in Readers /\ Read(t)) \/ (t \in Writers /\ Write(t))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Safe == \A r \in Readers : pc[r] = "use" => reg[r].p \notin freed
Current == mem["ptr"] \notin freed
Done == \A t \in T : pc[t] = "idle" /\ buf[t] = <<>> /\ n[t] = IF t \in Readers THEN Sections ELSE Updates
Live == <>Done
Stuck == (~ENABLED Next) => Done
=============================================================================
