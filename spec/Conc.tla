-------------------------------- MODULE Conc --------------------------------
(* What concurrent use of the library may look like, for any implementation of its synchronisation.                 *)
(* Step*(s, e) is the set of states after event e.  Events not mentioned (race, stuck, livelock, crash, hang) are    *)
(* never allowed.                                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ran(f) == {f[x] : x \in DOMAIN f}
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
If(c, S) == IF c THEN S ELSE {}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* ------------------------------------------------------------------ work queue (C03) *)
(* pend[t]: the call in progress; every operation takes effect at one moment between its call and its return *)
Q0 == [q |-> <<>>, closed |-> FALSE, pend |-> <<>>]
Lin(s, t) ==
  LET p == s.pend[t]
      Done(u, r) == [u EXCEPT !.pend[t].lin = TRUE, !.pend[t].r = r]
  IN CASE p.f = "put" -> IF s.closed THEN {Done(s, 0)} ELSE {Done([s EXCEPT !.q = Append(@, p.v)], 1)}
       [] p.f = "take" -> IF s.q # <<>> THEN {Done([s EXCEPT !.q = Tail(@)], Head(s.q))} ELSE IF s.closed THEN {Done(s, 0)} ELSE {}
       [] p.f = "close" -> {Done([s EXCEPT !.closed = TRUE], 0)}
       [] p.f = "empty" -> {Done(s, IF s.q = <<>> THEN 1 ELSE 0)}
       [] p.f = "closed" -> {Done(s, IF s.closed THEN 1 ELSE 0)}
       [] OTHER -> {}
RECURSIVE LinTo(_, _)
LinTo(s, t) == IF s.pend[t].lin THEN {s}
               ELSE UNION {UNION {LinTo(u, t) : u \in Lin(s, x)} : x \in {y \in DOMAIN s.pend : ~s.pend[y].lin}}
QStep(s, e) ==
  CASE e.op = "exec" -> If(s.pend = <<>>, {Q0})
    [] e.op = "call" -> If(e.t \notin DOMAIN s.pend, {[s EXCEPT !.pend = Put(@, e.t, [f |-> e.f, v |-> e.v, lin |-> FALSE, r |-> 0])]})
    [] e.op = "ret" -> If(e.t \in DOMAIN s.pend, {[u EXCEPT !.pend = Del(@, e.t)] : u \in {v \in LinTo(s, e.t) : v.pend[e.t].r = e.r}})
    (* nobody can go on: only takers of an empty open queue may be waiting *)
    [] e.op = "rescue" -> If(s.q = <<>> /\ ~s.closed /\ \A t \in DOMAIN s.pend : s.pend[t].f = "take" /\ ~s.pend[t].lin, {s})
    [] e.op = "done" -> If(s.pend = <<>>, {s})
    [] OTHER -> {}
(* ------------------------------------------------------------------ locks (C04) *)
(* in: the sections that are open; n: completed exclusive sections, each of which adds one to both data *)
L0 == [in |-> {}, want |-> <<>>, n |-> 0, quiet |-> FALSE, used |-> {}]
LStep(s, e) ==
  CASE e.op = "exec" -> {L0}
    [] e.op = "want" -> If(e.t \notin DOMAIN s.want, {[s EXCEPT !.want = Put(@, e.t, e.k), !.used = @ \cup {e.t}]})
    [] e.op = "in" -> If(/\ e.t \in DOMAIN s.want /\ s.want[e.t] \in (IF e.k = "x" THEN {"x", "tx"} ELSE {"s", "ts"})
                         /\ ~\E h \in s.in : h[2] = "x" \/ e.k = "x"
                         /\ ~\E h \in s.in : h[1] = e.t,
                         {[s EXCEPT !.in = @ \cup {<<e.t, e.k>>}]})
    [] e.op = "out" -> If(<<e.t, "x">> \in s.in /\ e.a = s.n + 1 /\ e.b = s.n + 1, {[s EXCEPT !.in = @ \ {<<e.t, "x">>}, !.n = @ + 1]})
                       \cup If(<<e.t, "s">> \in s.in /\ e.a = s.n /\ e.b = s.n, {[s EXCEPT !.in = @ \ {<<e.t, "s">>}]})
    [] e.op = "left" -> If(e.t \in DOMAIN s.want /\ ~\E h \in s.in : h[1] = e.t, {[s EXCEPT !.want = Del(@, e.t)]})
    [] e.op = "fail" -> If(/\ e.t \in DOMAIN s.want /\ s.want[e.t] \in {"tx", "ts"} /\ ~\E h \in s.in : h[1] = e.t
                           /\ ~s.quiet /\ s.used # {e.t},
                           {[s EXCEPT !.want = Del(@, e.t)]})
    [] e.op = "quiet" -> If(s.in = {} /\ s.want = <<>>, {[s EXCEPT !.quiet = TRUE]})
    [] e.op = "done" -> If(s.in = {} /\ s.want = <<>>, {s})
    [] OTHER -> {}
(* ------------------------------------------------------------------ read-copy-update (C05) *)
(* upd[o]: the versions whose publication has been requested, each with the versions whose publication had been      *)
(* completed at that time; done[o]: completed ones; old[o]: versions that are no longer current in any case          *)
R0 == [upd |-> <<>>, done |-> <<>>, old |-> <<>>, freed |-> {}, sec |-> <<>>, ser |-> <<>>, sync |-> <<>>, end |-> FALSE]
RStep(s, e) ==
  CASE e.op = "exec" -> {R0}
    [] e.op = "new" -> {[s EXCEPT !.upd = Put(@, e.o, (0 :> {})), !.done = Put(@, e.o, {0}), !.old = Put(@, e.o, {})]}
    [] e.op = "upd" -> {[s EXCEPT !.upd[e.o] = Put(@, e.v, s.done[e.o])]}
    [] e.op = "updret" -> {[s EXCEPT !.done[e.o] = @ \cup {e.v}, !.old[e.o] = @ \cup s.upd[e.o][e.v]]}
    [] e.op = "want" -> If(e.t \notin DOMAIN s.sec, {[s EXCEPT !.sec = Put(@, e.t, [in |-> FALSE, old |-> s.old, held |-> {}]),
                                                            !.ser = Put(@, e.t, IF e.t \in DOMAIN @ THEN @[e.t] + 1 ELSE 1)]})
    [] e.op = "in" -> If(e.t \in DOMAIN s.sec, {[s EXCEPT !.sec[e.t].in = TRUE]})
    [] e.op = "read" -> If(/\ e.t \in DOMAIN s.sec /\ e.ok
                           /\ e.v \in DOMAIN s.upd[e.o] /\ e.v \notin s.sec[e.t].old[e.o] /\ <<e.o, e.v>> \notin s.freed,
                           {[s EXCEPT !.sec[e.t].held = @ \cup {<<e.o, e.v>>}]})
    [] e.op = "again" -> If(e.t \in DOMAIN s.sec /\ e.ok /\ <<e.o, e.v>> \notin s.freed /\ <<e.o, e.v>> \in s.sec[e.t].held, {s})
    [] e.op = "out" -> If(e.t \in DOMAIN s.sec, {[s EXCEPT !.sec = Del(@, e.t)]})
    [] e.op = "free" -> If(/\ ~e.again /\ <<e.o, e.v>> \notin s.freed
                           /\ \A t \in DOMAIN s.sec : <<e.o, e.v>> \notin s.sec[t].held
                           /\ s.end \/ \E w \in DOMAIN s.upd[e.o] : w # e.v /\ w \notin s.upd[e.o][e.v],
                           {[s EXCEPT !.freed = @ \cup {<<e.o, e.v>>}]})
    [] e.op = "sync" -> {[s EXCEPT !.sync = Put(@, e.t, {<<t, s.ser[t]>> : t \in {u \in DOMAIN s.sec : s.sec[u].in}})]}
    [] e.op = "syncret" -> If(\A x \in s.sync[e.t] : ~(x[1] \in DOMAIN s.sec /\ s.ser[x[1]] = x[2]), {[s EXCEPT !.sync = Del(@, e.t)]})
    [] e.op = "end" -> If(s.sec = <<>> /\ s.sync = <<>> /\ \A o \in DOMAIN s.upd : DOMAIN s.upd[o] = s.done[o], {[s EXCEPT !.end = TRUE]})
    [] e.op = "done" -> {s}
    [] OTHER -> {}
(* ------------------------------------------------------------------ parallel loops (C01, C02) *)
(* who: the threads that ran bodies since the number of threads was set; most: how many there may be (the callers and the workers) *)
P0 == [lp |-> <<>>, who |-> {}, most |-> 1000]
Threads(k) == IF k = 0 THEN 1 ELSE k
Fresh(l) == [t |-> l.t, n |-> l.n, beg |-> {}, act |-> {}, thr |-> {}, open |-> TRUE]
PStep(s, e) ==
  CASE e.op = "exec" -> {P0}
    [] e.op = "threads" -> If(e.got = Threads(e.k), {[s EXCEPT !.who = {}, !.most = Threads(e.k) - 1 + e.callers]})
    [] e.op = "loop" -> If(e.l \notin DOMAIN s.lp, {[s EXCEPT !.lp = Put(@, e.l, Fresh(e))]})
    [] e.op = "done" -> If(\A l \in DOMAIN s.lp : ~s.lp[l].open /\ s.lp[l].act = {}, {s})
    [] "l" \notin DOMAIN e -> {}
    [] e.l \notin DOMAIN s.lp -> {}
    [] e.op = "beg" -> LET p == s.lp[e.l] IN
         If(/\ p.open /\ e.i \in 0..(p.n - 1) /\ e.i \notin p.beg
            /\ Cardinality(s.who \cup {e.t}) <= s.most,
            {[s EXCEPT !.lp[e.l].beg = @ \cup {e.i}, !.lp[e.l].act = @ \cup {<<e.t, e.i>>}, !.who = @ \cup {e.t}]})
    [] e.op = "end" -> If(<<e.t, e.i>> \in s.lp[e.l].act, {[s EXCEPT !.lp[e.l].act = @ \ {<<e.t, e.i>>}]})
    [] e.op = "thr" -> If(<<e.t, e.i>> \in s.lp[e.l].act, {[s EXCEPT !.lp[e.l].act = @ \ {<<e.t, e.i>>}, !.lp[e.l].thr = @ \cup {e.i}]})
    [] e.op = "ret" -> LET p == s.lp[e.l] IN If(p.open /\ p.t = e.t /\ p.beg = 0..(p.n - 1) /\ p.act = {} /\ p.thr = {}, {[s EXCEPT !.lp[e.l].open = FALSE]})
    [] e.op = "exc" -> LET p == s.lp[e.l] IN If(p.open /\ p.t = e.t /\ p.act = {} /\ e.el = e.l /\ e.i \in p.thr, {[s EXCEPT !.lp[e.l].open = FALSE]})
    [] e.op = "sum" -> If(~s.lp[e.l].open /\ e.v = Cardinality(s.lp[e.l].beg), {s})
    [] OTHER -> {}
(* ------------------------------------------------------------------ random streams (R03) *)
(* str[t]: the number of the stream of a thread; pos[t]: how many numbers it has drawn since the last seeding        *)
G0 == [seed |-> -1, str |-> <<>>, pos |-> <<>>, first |-> <<>>, call |-> {}, used |-> {}, dead |-> {}]
Rank(s, t) == Cardinality({u \in DOMAIN s.str \ s.dead : s.str[u] <= s.str[t]})
GStep(s, e) ==
  CASE e.op = "exec" -> {G0}
    [] e.op = "seed" -> If(s.call = {},
         LET live == DOMAIN s.str \ s.dead IN
         {[s EXCEPT !.seed = e.s, !.str = [t \in live |-> Rank(s, t)], !.pos = [t \in live |-> 0], !.used = 1..Cardinality(live), !.dead = {}]})
    [] e.op = "call" -> If(e.t \notin s.call /\ e.t \notin s.dead,
         {[s EXCEPT !.call = @ \cup {e.t}, !.first = IF e.t \in DOMAIN s.str THEN @ ELSE Put(@, e.t, MaxOf(Ran(s.str)))]})
    [] e.op = "draw" ->
         LET k == e.s - s.seed * 100
             t == e.t
         IN If(e.t \in s.call /\ e.s \div 100 = s.seed,
              IF t \in DOMAIN s.str THEN If(k = s.str[t] /\ e.p = s.pos[t] + 1, {[s EXCEPT !.call = @ \ {t}, !.pos[t] = @ + 1]})
              ELSE If(k > s.first[t] /\ k \notin s.used /\ e.p = 1 /\ k >= 1 /\ k <= Cardinality(s.used) + Cardinality(DOMAIN s.first),
                      {[s EXCEPT !.call = @ \ {t}, !.str = Put(@, t, k), !.pos = Put(@, t, 1), !.used = @ \cup {k}, !.first = Del(@, t)]}))
    [] e.op = "tend" -> {[s EXCEPT !.dead = @ \cup ({e.t} \cap DOMAIN s.str)]}
    [] e.op = "done" -> If(s.call = {}, {s})
    [] OTHER -> {}
Start(f) == CASE f = "queue" -> Q0 [] f = "lock" -> L0 [] f = "rcu" -> R0 [] f \in {"pool", "poolx"} -> P0 [] f = "rng" -> G0
Step(f, s, e) == CASE f = "queue" -> QStep(s, e) [] f = "lock" -> LStep(s, e) [] f = "rcu" -> RStep(s, e)
                   [] f \in {"pool", "poolx"} -> PStep(s, e) [] f = "rng" -> GStep(s, e)
=============================================================================
