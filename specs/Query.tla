------------------------------- MODULE Query -------------------------------
(* The life of queries as their clients and an operator of the workers see it: what may be observed of a    *)
(* set of queries that share workers, some of which fail, are dropped or reach their limit early.           *)
(*   tr.exp[q]: rows (strings) the query has to deliver, lim (-1: all of them, else that many of them)      *)
(*   events k: start q | rows q rows | end q | err q has (causes named in the message) | hang q | drop q    *)
(*             fire c (a failure with cause c happened) | cut (a connection was cut)                        *)
(*             quiet tasks live open plans (what the workers still hold, when nothing moves any more)       *)
(* An address of a task that came too late, or a plan that did not arrive, leaves an empty entry that is only *)
(* forgotten after some idle time: tasks are only counted if everything was read to its end (tr.whole).      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Count(s) == FoldLeft(LAMBDA f, x : IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE f @@ (x :> 1), <<>>, s)
Within(a, b) == \A x \in DOMAIN a : x \in DOMAIN b /\ a[x] <= b[x]
Least(a, b) == IF a < b THEN a ELSE b

(* st: idle, run, ok, failed, dropped; got: rows received; fired, blamed: causes; cut; lost: rows asked for and dropped *)
Fresh(tr) == [st |-> [q \in DOMAIN tr.exp |-> "idle"], got |-> [q \in DOMAIN tr.exp |-> <<>>], fired |-> {}, blamed |-> {}, cut |-> FALSE]

Complete(x, got) == IF x.lim < 0 THEN Count(got) = Count(x.rows)
                    ELSE Len(got) = Least(x.lim, Len(x.rows)) /\ Within(Count(got), Count(x.rows))
Set(s) == {s[i] : i \in DOMAIN s}

Judge(tr, s, e) ==
  CASE e.k = "start" -> IF s.st[e.q] # "idle" THEN "harness: started twice" ELSE ""
    [] e.k = "rows" -> IF s.st[e.q] # "run" THEN "fail: rows after the end of the query" ELSE ""
    [] e.k = "end" ->
         IF s.st[e.q] # "run" THEN "fail: a second end of the query"
         ELSE IF ~Complete(tr.exp[e.q], s.got[e.q]) THEN
              IF s.fired = {} /\ ~s.cut THEN "fail: wrong rows although nothing failed" ELSE "fail: ended successfully without all of its rows after a failure"
         ELSE ""
    [] e.k = "err" ->
         IF s.st[e.q] # "run" THEN "fail: an error after the end of the query"
         ELSE IF s.cut THEN ""
         ELSE IF s.fired = {} THEN "fail: an error although nothing failed"
         ELSE IF Set(e.has) \cap s.fired = {} THEN "fail: the error does not carry the original cause"
         ELSE IF Set(e.has) \cap (s.fired \ s.blamed) = {} THEN "fail: the failure of one query is reported by another one"
         ELSE ""
    [] e.k = "hang" -> "fail: the query does not end"
    [] e.k = "quiet" ->
         IF e.live # 0 THEN "clean: leaves are still executed"
         ELSE IF e.open # 0 THEN "clean: coordinator streams are still open"
         ELSE IF e.plans # 0 THEN "clean: workers still hold plans of finished queries"
         ELSE IF e.tasks # 0 /\ tr.whole /\ s.fired = {} /\ ~s.cut /\ \A q \in DOMAIN s.st : s.st[q] # "dropped" THEN "clean: workers still hold tasks"
         ELSE ""
    [] e.k \in {"drop", "fire", "cut"} -> ""
    [] OTHER -> "harness: unknown event"

After(tr, s, e) ==
  CASE e.k = "start" -> [s EXCEPT !.st[e.q] = "run"]
    [] e.k = "rows" -> [s EXCEPT !.got[e.q] = @ \o e.rows]
    [] e.k = "end" -> [s EXCEPT !.st[e.q] = "ok"]
    [] e.k = "err" -> [s EXCEPT !.st[e.q] = "failed", !.blamed = @ \cup (Set(e.has) \cap s.fired)]
    [] e.k = "drop" -> [s EXCEPT !.st[e.q] = "dropped"]
    [] e.k = "fire" -> [s EXCEPT !.fired = @ \cup {e.c}]
    [] e.k = "cut" -> [s EXCEPT !.cut = TRUE]
    [] OTHER -> s
=============================================================================
