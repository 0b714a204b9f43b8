------------------------------- MODULE Metrics -------------------------------
(* What a user may rely on about the metrics of a distributed query: who reports, when, and what the numbers are.      *)
(*                                                                                                                      *)
(* A stream is one instance of an operator: the operator (by its label), the task of its stage, the partition, the      *)
(* sizes of the batches it produced, and whether it came to its end. A number is <<name, partition, task, value>>.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumBy(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
\* what an instance may have reported: everything once it has come to its end, otherwise what it had produced at some moment
Allowed(st) == IF st.ended THEN {Sum(st.b)} ELSE {Sum(SubSeq(st.b, 1, k)) : k \in 0..Len(st.b)}

\* ---- who reports
Count(seq, x) == Len(SelectSeq(seq, LAMBDA y : y = x))
Reports(tr) ==
  IF ~tr.collect /\ tr.reports # <<>> THEN "report: a task reports although collection is off"
  ELSE IF \E x \in ToSet(tr.reports) : Count(tr.reports, x) > 1 THEN "report: a task reports twice"
  ELSE IF ~(ToSet(tr.reports) \subseteq ToSet(tr.tasks)) THEN "report: from a task that does not exist"
  ELSE IF tr.collect /\ tr.answer = "ok" /\ ~(ToSet(tr.ran) \subseteq ToSet(tr.reports)) THEN "report: a task ran and did not report"
  ELSE ""
\* ---- asking for metrics comes to an end, with an answer if the query had one
Asked(tr) ==
  IF tr.pt = "hang" \/ tr.ag = "hang" THEN "wait: asking for the metrics of a finished query never returns"
  ELSE IF tr.answer = "ok" /\ (tr.pt = "err" \/ tr.ag = "err") THEN "wait: no metrics for a query that was answered"
  ELSE IF tr.answer = "ok" /\ \E l \in ToSet(tr.labels) : ~\E n \in ToSet(tr.nodes) : n.label = l THEN "plan: an operator is missing in the measured plan"
  ELSE ""

\* ---- the numbers of one operator
Streams(tr, n) == {st \in ToSet(tr.streams) : st.label = n.label /\ (n.stage = 0 \/ <<n.stage, st.t>> \in ToSet(tr.reports))}
Rows(n) == {i \in DOMAIN n.pt : n.pt[i][1] = "output_rows"}
Adds == {"x_count", "x_gauge", "x_time", "x_bytes", "x_label", "x_peak", "spill_count", "spilled_bytes", "spilled_rows", "output_bytes", "output_batches", "mem_used", "elapsed_compute",
         "x_prune.pruned", "x_prune.matched", "x_prune.fully", "x_ratio0.part", "x_ratio0.total", "x_ratio1.part", "x_ratio2.total"}
Kinds == Adds \cup {"start_timestamp", "end_timestamp", "x_of", "x_ratio0.raw", "x_ratio1.raw", "x_ratio2.raw", "x_ratio1.total", "x_ratio2.part", "x_count", "x_gauge", "x_time", "x_maxg", "x_bytes", "x_min", "x_max", "x_first", "x_avg", "x_p50", "x_p75", "x_p95", "x_p99"}
Unique(st) == 1000 * (st.t + 1) + 7 * st.p + 1
One(k, st) == CASE k \in {"x_avg", "x_prune.matched", "x_ratio0.total", "x_ratio1.total", "x_ratio2.total"} -> 2 * Unique(st)
                [] k = "x_prune.fully" -> 3 * Unique(st)
                [] k \in {"x_ratio0.raw", "x_ratio2.raw"} -> 1
                [] k = "x_ratio1.raw" -> 0
                [] OTHER -> Unique(st)
Sketch(k) == k \in {"x_p50", "x_p75", "x_p95", "x_p99"}
Close(k, v, e) == IF Sketch(k) THEN 50 * v >= 49 * e /\ 50 * v <= 51 * e ELSE v = e
Total(k, S) == LET V == {One(k, st) : st \in S} IN
  CASE k \in Adds -> {SumBy(S, LAMBDA st : One(k, st))}
    [] k \in {"x_maxg", "x_max", "end_timestamp"} -> {CHOOSE v \in V : \A w \in V : w <= v}
    [] k \in {"x_min", "start_timestamp"} -> {CHOOSE v \in V : \A w \in V : v <= w}
    [] k \in {"x_first", "x_ratio1.total", "x_ratio2.part", "x_ratio0.raw", "x_ratio1.raw", "x_ratio2.raw"} -> V
    [] k = "x_avg" -> {SumBy(S, LAMBDA st : One(k, st)) \div Cardinality(S)}
    [] OTHER -> (CHOOSE v \in V : \A w \in V : v <= w)..(CHOOSE v \in V : \A w \in V : w <= v)
TotalOk(k, S, v) == IF Sketch(k) THEN \E e \in Total(k, S) : Close(k, v, e) ELSE v \in Total(k, S)
\* the multiset of numbers per task is the multiset of numbers in the summed form, without the tasks
Same(a, b) == LET x == [i \in DOMAIN a |-> <<a[i][1], a[i][2], a[i][4]>>]
                  y == [i \in DOMAIN b |-> <<b[i][1], b[i][2], b[i][4]>>] IN
              Len(x) = Len(y) /\ \A e \in ToSet(x) \cup ToSet(y) : Count(x, e) = Count(y, e)
Node(tr, n) ==
  LET S == Streams(tr, n)
      tasks == {st.t : st \in S}
      rows(t) == SumBy({i \in Rows(n) : n.pt[i][3] = t}, LAMBDA i : n.pt[i][4])
      truth(t) == SumBy({st \in S : st.t = t}, LAMBDA st : Sum(st.b))
      ended(t) == \A st \in S : st.t = t => st.ended
      all == \A st \in S : st.ended IN
  IF \E i \in DOMAIN n.pt : n.pt[i][3] \notin tasks THEN "number: of a task that did not run this operator"
  ELSE IF \E i \in Rows(n) : ~\E st \in S : st.t = n.pt[i][3] /\ st.p = n.pt[i][2] THEN "number: of a partition that was not run"
  ELSE IF \E st \in S : Cardinality({i \in Rows(n) : n.pt[i][2] = st.p /\ n.pt[i][3] = st.t}) # 1 THEN "number: an instance has no number, or several"
  ELSE IF \E st \in S, i \in Rows(n) : n.pt[i][2] = st.p /\ n.pt[i][3] = st.t /\ n.pt[i][4] \notin Allowed(st) THEN "number: not what the instance did"
  ELSE IF tr.probe /\ \E k \in Kinds, st \in S : ~\E i \in DOMAIN n.pt : n.pt[i][1] = k /\ n.pt[i][2] = st.p /\ n.pt[i][3] = st.t /\ Close(k, n.pt[i][4], One(k, st)) THEN "kind: a metric of some kind is lost or changed on its way"
  ELSE IF tr.probe /\ \E k \in Kinds : Cardinality({i \in DOMAIN n.pt : n.pt[i][1] = k}) # Cardinality(S) THEN "kind: an instance has several metrics of a kind"
  ELSE IF tr.probe /\ S # {} /\ \E k \in Kinds \ {"x_of"} : ~TotalOk(k, S, n.sums[k]) THEN "kind: the metrics of a kind are summed up wrongly"
  ELSE IF ~Same(n.pt, n.ag) THEN "sum: the summed form has other numbers"
  ELSE IF n.below # <<>> /\ \E t \in tasks : ended(t) /\ \E b \in ToSet(n.below) : b[1] = t /\ b[2] # truth(t) THEN "below: an operator reports other rows than were taken from it"
  ELSE IF n.below # <<>> /\ \E t \in tasks : ended(t) /\ truth(t) > 0 /\ ~\E b \in ToSet(n.below) : b[1] = t THEN "below: an operator reports nothing for a task that ran it"
  ELSE IF n.below # <<>> /\ \E b \in ToSet(n.below) : b[1] \notin tasks /\ b[2] > 0 THEN "below: an operator reports for a task that did not run it"
  ELSE IF all /\ {t \in tasks : ~\E x \in ToSet(n.txt) : x[1] = t /\ x[2] = truth(t)} # {} THEN "text: the printed numbers of a task are others"
  ELSE IF all /\ S # {} /\ n.txtsum # SumBy(tasks, truth) THEN "text: the printed sums are others"
  ELSE ""
\* ---- the slices of a scan, as printed
Slice(tr, x) == IF x.ended /\ x.printed # x.rows THEN "text: the printed numbers of a scan's slice are others"
                ELSE IF x.ended /\ x.rows > 0 /\ x.task # x.by THEN "text: a scan's slice is attributed to another task" ELSE ""
First(s) == LET b == SelectSeq(s, LAMBDA x : x # "") IN IF b = <<>> THEN "" ELSE b[1]
Judge(tr) ==
  First(<<IF tr.answer = "hang" THEN "answer: the query hangs" ELSE "", Reports(tr), Asked(tr)>>
        \o IF tr.answer = "ok" /\ tr.collect THEN [i \in DOMAIN tr.nodes |-> Node(tr, tr.nodes[i])] \o [i \in DOMAIN tr.slices |-> Slice(tr, tr.slices[i])] ELSE <<>>)
===============================================================================
