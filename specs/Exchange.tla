------------------------------ MODULE Exchange ------------------------------
(* What may be observed at one exchange between two stages.                                            *)
(* m (the exchange): kind, T producer tasks with P partitions each, C consumer tasks with N partitions *)
(*   each, loc (pairs <<c, t>> on one worker: read in process, so that no request is seen), home (tasks *)
(*   of the coordinator's own worker, whose hand-over is not seen).                                    *)
(* s (what was seen so far) and e (the next event) determine Judge(m, s, e): "" or what is wrong.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Fresh == [planned |-> {}, reqs |-> {}, heads |-> {}, range |-> <<>>, run |-> {}, ended |-> {}, sent |-> <<>>, own |-> <<>>,
          open |-> {}, closed |-> {}, got |-> {}, dest |-> <<>>, src |-> <<>>, pos |-> <<>>]

Tasks(m) == 0..(m.T - 1)
Parts(m) == 0..(m.P - 1)
Elided(m) == m.T = 1 /\ m.C = 1
HeadOf(m) == CASE m.kind = "shuffle" -> "hash" [] m.kind = "bcast" -> "bcast" [] OTHER -> "none"
(* the partitions a producer task offers to all its consumers together *)
Offered(m) == IF m.kind = "gather" THEN m.P ELSE m.N * m.C

Loc(m) == Range(m.loc)
Asked(m, s) == s.reqs \cup Loc(m)

Count(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0

(* where a row has to be counted as received: once per exchange, or once per consumer task *)
Mark(m, e) == IF m.kind = "bcast" THEN <<e.c, e.row[2]>> ELSE <<0, e.row[2]>>

Judge(m, s, e) ==
  CASE e.k = "plan" ->
         IF e.t \notin Tasks(m) THEN "request: plan for a task that does not exist"
         ELSE IF e.t \in s.planned THEN "request: two plans for one task" ELSE ""
    [] e.k = "req" ->
         IF e.t \notin Tasks(m) \/ e.c \notin 0..(m.C - 1) THEN "request: to or from a task that does not exist"
         ELSE IF <<e.c, e.t>> \in Loc(m) THEN "request: a remote request although the producer is on the same worker"
         ELSE IF <<e.c, e.t>> \in s.reqs THEN "request: a second request of one consumer task to one producer task"
         ELSE IF e.head # HeadOf(m) \/ (HeadOf(m) # "none" /\ e.n # Offered(m)) THEN "request: asks for the wrong producer output"
         ELSE IF e.p0 >= e.p1 \/ e.p1 > Offered(m) THEN "request: for partitions that do not exist"
         ELSE IF m.kind # "gather" /\ e.p1 - e.p0 # m.N THEN "request: does not cover the consumer's partitions"
         ELSE IF m.kind = "gather" /\ (e.p0 # 0 \/ e.p1 # m.P) THEN "request: does not cover the producer's partitions"
         ELSE IF m.kind = "gather" /\ \E r \in s.reqs : r[2] = e.t THEN "request: two consumer tasks gather one producer task"
         ELSE IF m.kind # "gather" /\ e.c \in DOMAIN s.range /\ s.range[e.c] # <<e.p0, e.p1>> THEN "request: other partitions than from the other producer tasks"
         ELSE IF m.kind # "gather" /\ \E d \in DOMAIN s.range : d # e.c /\ s.range[d][1] < e.p1 /\ e.p0 < s.range[d][2] THEN "request: partitions of another consumer task"
         ELSE ""
    [] e.k = "run" ->
         IF e.t \notin Tasks(m) \/ e.p \notin Parts(m) THEN "request: execution of a task or partition that does not exist"
         ELSE IF <<e.t, e.p>> \in s.run THEN "request: a producer partition is executed twice"
         ELSE IF ~Elided(m) /\ ~\E r \in Asked(m, s) : r[2] = e.t THEN "request: execution of a task nobody asked for" ELSE ""
    [] e.k = "emit" -> IF <<e.t, e.p>> \notin s.run \/ <<e.t, e.p>> \in s.ended THEN "harness: row of a partition that is not running" ELSE ""
    [] e.k = "eop" -> ""
    [] e.k = "open" ->
         IF e.c \notin 0..(m.C - 1) \/ e.p \notin 0..(m.N - 1) THEN "data: a consumer partition that does not exist"
         ELSE IF <<e.c, e.p>> \in s.open THEN "request: a partition is executed twice" ELSE ""
    [] e.k = "recv" ->
         IF <<e.c, e.p>> \in s.closed THEN "data: row after the end"
         ELSE IF e.row[2] \notin DOMAIN s.own THEN "data: a row that no producer emitted"
         ELSE IF Mark(m, e) \in s.got THEN "data: a row is delivered twice"
         ELSE LET o == s.own[e.row[2]] IN
              CASE m.kind = "shuffle" -> IF e.row[1] \in DOMAIN s.dest /\ s.dest[e.row[1]] # <<e.c, e.p>> THEN "data: equal keys in two consumer partitions" ELSE ""
                [] m.kind = "gather" ->
                     IF <<e.c, e.p>> \in DOMAIN s.src /\ s.src[<<e.c, e.p>>] # o.tp THEN "data: two producer partitions in one consumer partition"
                     ELSE IF \E d \in DOMAIN s.src : d # <<e.c, e.p>> /\ s.src[d] = o.tp THEN "data: one producer partition in two consumer partitions"
                     ELSE IF Count(s.pos, <<e.c, e.p>>) + 1 # o.i THEN "data: rows out of order" ELSE ""
                [] OTHER -> IF Count(s.pos, <<e.c, o.tp>>) + 1 # o.i THEN "data: rows out of order" ELSE ""
    [] e.k = "eoc" -> IF <<e.c, e.p>> \notin s.open \/ <<e.c, e.p>> \in s.closed THEN "harness: end of a partition that is not open" ELSE ""
    [] OTHER -> "harness: unknown event"

(* the state after an accepted event *)
After(m, s, e) ==
  CASE e.k = "plan" -> [s EXCEPT !.planned = @ \cup {e.t}]
    [] e.k = "req" -> [s EXCEPT !.reqs = @ \cup {<<e.c, e.t>>}, !.range = @ @@ (e.c :> <<e.p0, e.p1>>)]
    [] e.k = "run" -> [s EXCEPT !.run = @ \cup {<<e.t, e.p>>}]
    [] e.k = "emit" -> [s EXCEPT !.own = @ @@ (e.row[2] :> [tp |-> <<e.t, e.p>>, i |-> Count(s.sent, <<e.t, e.p>>) + 1]),
                                 !.sent = (<<e.t, e.p>> :> Count(s.sent, <<e.t, e.p>>) + 1) @@ @]
    [] e.k = "eop" -> [s EXCEPT !.ended = @ \cup {<<e.t, e.p>>}]
    [] e.k = "open" -> [s EXCEPT !.open = @ \cup {<<e.c, e.p>>}]
    [] e.k = "recv" -> LET o == s.own[e.row[2]]
                           k == IF m.kind = "gather" THEN <<e.c, e.p>> ELSE <<e.c, o.tp>> IN
         [s EXCEPT !.got = @ \cup {Mark(m, e)},
                   !.dest = IF m.kind = "shuffle" THEN @ @@ (e.row[1] :> <<e.c, e.p>>) ELSE @,
                   !.src = IF m.kind = "gather" THEN @ @@ (<<e.c, e.p>> :> o.tp) ELSE @,
                   !.pos = IF m.kind = "shuffle" THEN @ ELSE (k :> Count(@, k) + 1) @@ @]
    [] e.k = "eoc" -> [s EXCEPT !.closed = @ \cup {<<e.c, e.p>>}]
    [] OTHER -> s

(* once everything was read to the end *)
Missing(m, s) ==
  CASE s.open # (0..(m.C - 1)) \X (0..(m.N - 1)) -> "harness: not every consumer partition was opened"
    [] s.closed # s.open -> "data: a consumer partition never ends"
    [] s.run # Tasks(m) \X Parts(m) -> "data: a producer partition was never executed"
    [] s.ended # s.run -> "data: a producer partition was not read to its end"
    [] s.got # (IF m.kind = "bcast" THEN 0..(m.C - 1) ELSE {0}) \X DOMAIN s.own -> "data: rows are missing"
    [] ~Elided(m) /\ s.planned \cup Range(m.home) # Tasks(m) -> "request: a task without a plan"
    [] ~Elided(m) /\ m.kind # "gather" /\ Asked(m, s) # (0..(m.C - 1)) \X Tasks(m) -> "request: a consumer task did not ask every producer task"
    [] ~Elided(m) /\ m.kind = "gather" /\ {r[2] : r \in Asked(m, s)} # Tasks(m) -> "request: a task that got a plan is never read"
    [] OTHER -> ""
==============================================================================
