------------------------------- MODULE WorkUnits -------------------------------
(* Leaves that are fed with work units from the coordinator. A leaf l runs as tc tasks of tr.p[l] partitions  *)
(* each; the coordinator opens tc * p feeds, and partition p of task ti reads feed ti * p[l] + p: the units of *)
(* this feed, all of them, each once, in the order they were produced, while they are produced.               *)
(* Events besides those of Query:                                                                             *)
(*   feed l f n (a feed was opened for n tasks) | put l f n (its n-th unit) | fend l f                        *)
(*   open l ti tc p | get l ti p u (<<leaf, feed, index>>) | uend l ti p | ustop l ti p | uerr l ti p         *)
(* The end of a feed is only seen when all feeds of the task have ended.                                      *)
(*   pend (the query was polled, nothing is ready, and nothing moves any more)                                *)
EXTENDS Query

UFresh(tr) == [q |-> Fresh(tr), put |-> <<>>, done |-> {}, n |-> <<>>, got |-> <<>>, rd |-> <<>>, dup |-> FALSE]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Upd(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Key(tr, e) == <<e.l, e.ti * tr.p[e.l + 1] + e.p>>
Calm(s) == s.q.fired = {} /\ ~s.q.cut /\ \A q \in DOMAIN s.q.st : s.q.st[q] # "dropped"
\* the query a leaf belongs to is over
Late(s) == s.q.st[1] \in {"ok", "failed", "dropped"}
Fed(s) == {k[1] : k \in DOMAIN s.put}

\* a partition whose execution failed may be executed again by every partition that needs it: nothing is told apart from then on
Again(tr, s, e) == ~Calm(s) /\ ((e.k = "feed" /\ <<e.l, e.f>> \in DOMAIN s.put) \/ (e.k = "open" /\ Key(tr, e) \in DOMAIN s.rd))
UKinds == {"feed", "put", "fend", "open", "get", "uend", "ustop", "uerr", "pend"}
UJudge(tr, s, e) ==
  CASE e.k \in UKinds /\ (s.dup \/ Again(tr, s, e)) -> ""
    [] e.k = "feed" -> IF <<e.l, e.f>> \in DOMAIN s.put THEN "unit: a feed is opened twice"
                       ELSE IF e.l \in DOMAIN s.n /\ s.n[e.l] # e.n THEN "unit: feeds of one leaf for different numbers of tasks"
                       ELSE IF e.f >= e.n * tr.p[e.l + 1] THEN "unit: a feed beyond the partitions of the leaf" ELSE ""
    [] e.k = "put" -> IF e.n # At(s.put, <<e.l, e.f>>) + 1 THEN "harness: feed out of order" ELSE ""
    [] e.k = "fend" -> ""
    [] e.k = "open" -> IF Key(tr, e) \in DOMAIN s.rd THEN "unit: a partition is executed twice"
                       ELSE IF e.ti >= e.tc THEN "unit: a task beyond the tasks of the stage"
                       ELSE IF e.l \in DOMAIN s.n /\ s.n[e.l] # e.tc THEN "unit: the feeds are made for another number of tasks" ELSE ""
    [] e.k = "get" -> LET k == Key(tr, e) IN
                      IF k \notin DOMAIN s.rd THEN "harness: not open"
                      ELSE IF e.u[1] # e.l THEN "unit: a unit of another leaf"
                      ELSE IF e.u[2] # k[2] THEN "unit: a unit of another feed"
                      ELSE IF e.u[3] < At(s.got, k) THEN "unit: a unit is delivered twice or out of order"
                      ELSE IF e.u[3] > At(s.got, k) THEN "unit: a unit is lost or out of order"
                      ELSE IF e.u[3] >= At(s.put, k) THEN "unit: a unit that was not produced" ELSE ""
    [] e.k = "uend" -> LET k == Key(tr, e) IN
                       IF ~Calm(s) \/ Late(s) THEN ""
                       ELSE IF k \notin DOMAIN s.put THEN "unit: no feed was opened for a partition"
                       ELSE IF k \notin s.done THEN "unit: the units end before their feed does"
                       ELSE IF At(s.got, k) # s.put[k] THEN "unit: the units end before all of them are delivered" ELSE ""
    [] e.k = "ustop" -> ""
    [] e.k = "uerr" -> IF Calm(s) /\ ~Late(s) THEN "unit: an error although nothing failed" ELSE ""
    [] e.k = "pend" -> IF tr.eager /\ Calm(s) /\ \E k \in DOMAIN s.rd : s.rd[k] = "open" /\ At(s.got, k) # At(s.put, k)
                       THEN "unit: a unit that was produced is held back"
                       ELSE IF tr.eager /\ Calm(s) /\ DOMAIN s.put = s.done /\ \E k \in DOMAIN s.rd : s.rd[k] = "open" /\ k \in s.done THEN "unit: the end of the feeds is held back" ELSE ""
    [] e.k = "end" /\ e.q = 1 -> LET j == Judge(tr, s.q, e) IN
                      IF j # "" THEN j
                      ELSE IF tr.whole /\ Calm(s) /\ \E l \in Fed(s) : \E f \in 0..(s.n[l] * tr.p[l + 1] - 1) :
                              LET k == <<l, f>> IN k \notin DOMAIN s.put \/ k \notin DOMAIN s.rd \/ (k \in DOMAIN s.rd /\ s.rd[k] # "stop" /\ (k \notin s.done \/ At(s.got, k) # At(s.put, k)))
                      THEN "unit: the query ended before all of its units were read" ELSE ""
    [] e.k = "hang" /\ e.q = 1 /\ (\E k \in DOMAIN s.rd : s.rd[k] = "open" /\ k \in s.done) /\ (\E k \in DOMAIN s.rd : s.rd[k] = "stop" /\ k \notin s.done) ->
           "unit: the end of a feed waits for another feed that nobody reads any more"
    [] OTHER -> Judge(tr, s.q, e)

UAfter(tr, s, e) ==
  CASE e.k \in UKinds /\ (s.dup \/ Again(tr, s, e)) -> [s EXCEPT !.dup = TRUE]
    [] e.k = "feed" -> [s EXCEPT !.put = @ @@ (<<e.l, e.f>> :> 0), !.n = Upd(@, e.l, e.n)]
    [] e.k = "put" -> [s EXCEPT !.put = Upd(@, <<e.l, e.f>>, e.n)]
    [] e.k = "fend" -> [s EXCEPT !.done = @ \cup {<<e.l, e.f>>}]
    [] e.k = "open" -> [s EXCEPT !.rd = Upd(@, Key(tr, e), "open"), !.n = Upd(@, e.l, e.tc)]
    [] e.k = "get" -> [s EXCEPT !.got = Upd(@, Key(tr, e), At(@, Key(tr, e)) + 1)]
    [] e.k \in {"uend", "uerr"} -> [s EXCEPT !.rd = Upd(@, Key(tr, e), "end")]
    [] e.k = "ustop" -> [s EXCEPT !.rd = Upd(@, Key(tr, e), "stop")]
    [] e.k = "pend" -> s
    [] OTHER -> [s EXCEPT !.q = After(tr, @, e)]
================================================================================
