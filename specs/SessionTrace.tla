----------------------------- MODULE SessionTrace -----------------------------
(* Recorded histories of sessions and queries, judged by Session.               *)
EXTENDS Session, Json, IOUtils, SequencesExt
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Start(tr) == [ss |-> [j \in DOMAIN tr.sessions |-> New({tr.sessions[j].exts[x] : x \in DOMAIN tr.sessions[j].exts}, tr.init)],
              qs |-> [q \in 1..tr.nq |-> [on |-> FALSE]], seen |-> {}, bad |-> "", n |-> 0]
Judge(tr, a, e) ==
  CASE e.k = "op" -> IF e.ok = Accepted(a.ss[e.s], e.op) THEN "" ELSE IF e.ok THEN "accepted: " \o e.op.do ELSE "refused: " \o e.op.do \o " " \o e.msg
    [] e.k = "start" -> ""
    [] e.k = "view" ->
         LET snap == a.qs[e.q].snap
             bad == {x \in Keys : e.set[x] # (IF e.w < 0 THEN snap.set[x] ELSE Seen(snap, x))} IN
         IF bad # {} THEN LET x == CHOOSE y \in bad : TRUE IN "view: " \o Tab[x].k \o " is " \o e.set[x] \o " instead of " \o (IF e.w < 0 THEN snap.set[x] ELSE Seen(snap, x))
         ELSE IF e.w >= 0 /\ e.batch # Batch(snap) THEN "view: the batch size is " \o e.batch \o " instead of " \o Batch(snap)
         ELSE IF e.w >= 0 /\ e.hdr # snap.hdr THEN "headers: a task sees other headers than its session has" ELSE ""
    [] e.k = "exec" -> IF e.hdr = (IF e.from < 0 \/ tr.reinject THEN a.qs[e.q].snap.hdr ELSE <<>>) THEN "" ELSE "headers: a request carries other headers than its session has"
    [] e.k = "done" -> IF e.err # "" THEN IF Unsendable(a.qs[e.q].snap, {tr.dirty[j] : j \in DOMAIN tr.dirty}) THEN "" ELSE "answer: " \o e.err ELSE IF e.rows # tr.rows THEN "answer: wrong number of rows" ELSE ""
Step(tr, a, e) ==
  IF a.bad # "" THEN a
  ELSE LET b == Judge(tr, a, e) IN
       IF b # "" THEN [a EXCEPT !.bad = b]
       ELSE LET a2 == [a EXCEPT !.n = @ + 1] IN
            CASE e.k = "op" -> [a2 EXCEPT !.ss[e.s] = After(@, e.op)]
              [] e.k = "start" -> [a2 EXCEPT !.qs[e.q] = [on |-> TRUE, snap |-> a.ss[e.s]]]
              [] e.k = "view" -> [a2 EXCEPT !.seen = @ \cup {<<e.q, e.x, e.t, e.w >= 0>>}]
              [] e.k = "done" /\ e.err # "" -> [a2 EXCEPT !.seen = @ \cup {<<e.q, tr.stages[j][2], -1, FALSE>> : j \in {x \in DOMAIN tr.stages : tr.stages[x][1] = e.q}}]
              [] OTHER -> a2
(* every stage of every query has been seen *)
Unseen(tr, a) == {s \in {<<x[1], x[2]>> : x \in {tr.stages[j] : j \in DOMAIN tr.stages}} : ~\E v \in a.seen : v[1] = s[1] /\ v[2] = s[2]}
Verdict(tr) == LET a == FoldLeft(LAMBDA acc, e : Step(tr, acc, e), Start(tr), tr.ev) IN
  [w |-> IF a.bad # "" THEN a.bad ELSE IF tr.ev # <<>> /\ Unseen(tr, a) # {} THEN "harness: a stage that nothing is known of" ELSE "", n |-> a.n, views |-> Cardinality(a.seen)]
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET v == Verdict(Traces[i]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> v.w, n |-> v.n, views |-> v.views]))
===============================================================================
