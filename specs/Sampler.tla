-------------------------------- MODULE Sampler --------------------------------
(* A chain of stages that is sized while it runs. Below every exchange sits a sampler: it starts to pull the  *)
(* partitions of its task before anybody reads them, reports what it has got, and hands everything over.      *)
(*   tr.xs[s]: the exchange above stage s: kind "shuffle" | "gather" (partition by partition) | "merge" (into one)  *)
(*   cap: most tasks the stage may have, P: partitions of its tasks                                           *)
(*   solo: all its rows come out in one place, one by one.  Stages below "merge" are not sampled.              *)
(*   events of stage s, task t, partition p                                                                   *)
(*     plan tc             a task was set up                                                                  *)
(*     out row | oend | oerr   what was produced below the sampler of s                                       *)
(*     load rows eos | leos    the reports of task t, and the word that there are no more                     *)
(*     req                 somebody is about to read the stage                                                *)
(*     in row | iend | ierr    what came out of the exchange in its consumer t, partition p                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Fresh == [tc |-> 0, plans |-> {}, out |-> <<>>, src |-> <<>>, oend |-> {}, oerr |-> {}, loads |-> {}, leos |-> {}, req |-> FALSE, early |-> {}, got |-> {}, pos |-> <<>>, iend |-> {}, ierr |-> {}]
\* consumer partition p of a gather in one task reads source partition p % P of task p \div P
Source(x, k) == <<k[2] \div x.P, k[2] % x.P>>
Len0(f, k) == Len(At(f, k, <<>>))

Judge(x, s, e) ==
  LET k == IF e.k \in {"plan", "leos", "req"} THEN <<e.t, 0>> ELSE <<e.t, e.p>> IN
  CASE e.k = "plan" -> IF e.tc < 1 THEN "size: a stage without tasks"
                       ELSE IF e.tc > x.cap THEN "size: a stage has more tasks than allowed"
                       ELSE IF s.tc # 0 /\ s.tc # e.tc THEN "size: tasks of a stage disagree on their number"
                       ELSE IF e.t >= e.tc THEN "size: a task beyond the tasks of its stage"
                       ELSE IF e.t \in s.plans THEN "size: a task is set up twice" ELSE ""
    [] e.k = "out" -> IF k \in s.oend THEN "harness: a row after the end" ELSE IF k \in s.oerr THEN "" ELSE IF e.row \in DOMAIN s.src THEN "harness: two rows are alike" ELSE ""
    [] e.k \in {"oend", "oerr"} -> ""
    [] e.k = "load" -> IF e.t \notin s.plans THEN "load: a report of a task that does not exist"
                       ELSE IF e.p >= x.P THEN "load: a report of a partition that does not exist"
                       ELSE IF e.t \in s.leos THEN "load: a report after the last one"
                       ELSE IF k \in s.loads THEN "load: a partition reports twice"
                       ELSE IF e.rows > Len0(s.out, k) THEN "load: rows are reported that were never produced"
                       ELSE IF e.eos /\ (k \notin s.oend \/ e.rows # Len0(s.out, k)) THEN "load: an end is reported too early" ELSE ""
    [] e.k = "leos" -> IF e.t \in s.leos THEN "load: two last reports"
                       ELSE IF x.kind # "merge" /\ \E p \in 0..(x.P - 1) : <<e.t, p>> \notin s.loads /\ (~s.req \/ <<e.t, p>> \in s.early) THEN "load: a partition never reports" ELSE ""
    [] e.k = "req" -> ""
    \* what follows a failure does not count
    [] e.k = "in" -> IF k \in s.ierr THEN "" ELSE IF e.row \notin DOMAIN s.src THEN "rows: a row out of nowhere"
                     ELSE IF e.row \in s.got THEN "rows: a row twice"
                     ELSE LET f == s.src[e.row] IN
                          IF f[2] <= At(s.pos, <<f[1], k>>, 0) THEN "rows: rows of one partition in another order"
                          ELSE IF x.kind = "gather" /\ (f[1] # Source(x, k) \/ f[2] # At(s.pos, <<f[1], k>>, 0) + 1) THEN "rows: a row was left out or strayed" ELSE ""
    [] e.k = "iend" -> IF k \in s.ierr THEN "" ELSE IF x.kind = "gather" THEN LET o == Source(x, k) IN
                            IF o \in s.oerr THEN "error: a failed partition ends as if it were complete"
                            ELSE IF o[1] < s.tc /\ (o \notin s.oend \/ At(s.pos, <<o, k>>, 0) # Len0(s.out, o)) THEN "rows: an end before all rows" ELSE ""
                       ELSE IF s.oerr # {} THEN "error: a failed partition ends as if it were complete"
                       ELSE IF \E t \in 0..(s.tc - 1), p \in 0..(x.P - 1) : <<t, p>> \notin s.oend THEN "rows: an end before the end of the input" ELSE ""
    [] e.k = "ierr" -> IF s.oerr = {} THEN "error: out of nowhere"
                       ELSE IF x.solo /\ x.P = 1 /\ \A o \in s.oerr : At(s.pos, <<o, k>>, 0) # Len0(s.out, o) THEN "error: overtakes rows"
                       ELSE IF x.kind = "gather" /\ Source(x, k) \in s.oerr /\ At(s.pos, <<Source(x, k), k>>, 0) # Len0(s.out, Source(x, k)) THEN "error: overtakes rows" ELSE ""
    [] OTHER -> "harness: unknown event"

After(s, e) ==
  LET k == IF e.k \in {"plan", "leos", "req"} THEN <<e.t, 0>> ELSE <<e.t, e.p>> IN
  CASE e.k = "plan" -> [s EXCEPT !.tc = e.tc, !.plans = @ \cup {e.t}]
    [] e.k = "out" -> IF k \in s.oerr THEN s ELSE [s EXCEPT !.out = Put(@, k, Append(At(@, k, <<>>), e.row)), !.src = Put(@, e.row, <<k, Len0(s.out, k) + 1>>)]
    [] e.k = "oend" -> [s EXCEPT !.oend = @ \cup {k}, !.early = IF s.req THEN @ ELSE @ \cup {k}]
    [] e.k = "oerr" -> [s EXCEPT !.oerr = @ \cup {k}]
    [] e.k = "load" -> [s EXCEPT !.loads = @ \cup {k}]
    [] e.k = "leos" -> [s EXCEPT !.leos = @ \cup {e.t}]
    [] e.k = "req" -> [s EXCEPT !.req = TRUE]
    [] e.k = "in" -> IF k \in s.ierr THEN s ELSE LET f == s.src[e.row] IN [s EXCEPT !.got = @ \cup {e.row}, !.pos = Put(@, <<f[1], k>>, f[2])]
    [] e.k = "iend" -> [s EXCEPT !.iend = @ \cup {k}]
    [] e.k = "ierr" -> [s EXCEPT !.ierr = @ \cup {k}]
    [] OTHER -> s

\* what has to be true once a query has answered completely
Missing(x, s) == IF s.tc = 0 THEN "size: a stage was never set up"
                 ELSE IF s.plans # 0..(s.tc - 1) THEN "size: a task was never set up"
                 ELSE IF s.oerr # {} THEN "error: a failed partition is not noticed"
                 ELSE IF s.got # DOMAIN s.src THEN "rows: rows are lost" ELSE ""
================================================================================
