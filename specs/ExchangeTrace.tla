---------------------------- MODULE ExchangeTrace ----------------------------
(* Recorded histories of the real code, judged by Exchange. A trace: xs (exchanges), ev (events in the order *)
(* in which they happened, each with the number x of its exchange), copart (pairs of exchanges that feed     *)
(* the two sides of one partitioned operator), cut (a failure was injected: the query ends early).           *)
EXTENDS Exchange, Json, IOUtils
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)

Step(tr, a, e) ==
  IF a.bad # "" THEN a
  ELSE LET j == Judge(tr.xs[e.x], a.ss[e.x], e) IN
       IF j # "" THEN [a EXCEPT !.bad = j, !.at = e.x] ELSE [a EXCEPT !.ss[e.x] = After(tr.xs[e.x], @, e), !.n = @ + 1]

CoPart(tr, ss) == \A q \in DOMAIN tr.copart :
   LET d1 == ss[tr.copart[q][1]].dest
       d2 == ss[tr.copart[q][2]].dest IN \A k \in DOMAIN d1 \cap DOMAIN d2 : d1[k] = d2[k]

Verdict(tr) ==
  LET a == FoldLeft(LAMBDA acc, e : Step(tr, acc, e), [ss |-> [x \in DOMAIN tr.xs |-> Fresh], bad |-> "", at |-> 0, n |-> 0], tr.ev)
      miss == {x \in DOMAIN tr.xs : Missing(tr.xs[x], a.ss[x]) # ""} IN
  IF a.bad # "" THEN [w |-> a.bad, at |-> a.at, n |-> a.n]
  ELSE IF tr.cut THEN [w |-> "", at |-> 0, n |-> a.n]
  ELSE IF miss # {} THEN LET x == CHOOSE y \in miss : TRUE IN [w |-> Missing(tr.xs[x], a.ss[x]), at |-> x, n |-> a.n]
  ELSE IF ~CoPart(tr, a.ss) THEN [w |-> "data: equal keys of two co-partitioned inputs in different partitions", at |-> 0, n |-> a.n]
  ELSE [w |-> "", at |-> 0, n |-> a.n]

Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET v == Verdict(Traces[i]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> v.w, at |-> v.at, n |-> v.n]))
==============================================================================
