----------------------------- MODULE SamplerTrace -----------------------------
(* Recorded histories of dynamically planned queries, judged by Sampler.        *)
EXTENDS Sampler, Json, IOUtils
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Step(tr, a, e) ==
  IF a.bad # "" THEN a
  ELSE LET j == Judge(tr.xs[e.s], a.ss[e.s], e) IN
       IF j # "" THEN [a EXCEPT !.bad = j, !.at = e.s] ELSE [a EXCEPT !.ss[e.s] = After(@, e), !.n = @ + 1]
Verdict(tr) ==
  LET a == FoldLeft(LAMBDA acc, e : Step(tr, acc, e), [ss |-> [x \in DOMAIN tr.xs |-> Fresh], bad |-> "", at |-> 0, n |-> 0], tr.ev)
      miss == {x \in DOMAIN tr.xs : Missing(tr.xs[x], a.ss[x]) # ""} IN
  IF a.bad # "" THEN [w |-> a.bad, at |-> a.at, n |-> a.n]
  ELSE IF tr.answer = "err" THEN [w |-> IF \E x \in DOMAIN tr.xs : a.ss[x].oerr # {} THEN "" ELSE "error: a failure that nothing caused", at |-> 0, n |-> a.n]
  ELSE IF tr.answer = "hang" THEN [w |-> "size: the query hangs", at |-> 0, n |-> a.n]
  ELSE IF miss # {} /\ tr.answer = "all" THEN LET x == CHOOSE y \in miss : TRUE IN [w |-> Missing(tr.xs[x], a.ss[x]), at |-> x, n |-> a.n]
  ELSE IF tr.answer = "all" /\ tr.boom THEN [w |-> "error: a failed partition is not noticed", at |-> 0, n |-> a.n]
  ELSE IF Cardinality(ToSet(tr.got)) # Len(tr.got) \/ ~(ToSet(tr.got) \subseteq ToSet(tr.exp)) THEN [w |-> "rows: the answer has rows twice or from nowhere", at |-> 0, n |-> a.n]
  ELSE IF tr.answer # "err" /\ Len(tr.got) # Min({tr.atmost, Len(tr.exp)}) THEN [w |-> "rows: the answer is incomplete", at |-> 0, n |-> a.n]
  ELSE [w |-> "", at |-> 0, n |-> a.n]
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET v == Verdict(Traces[i]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> v.w, at |-> v.at, n |-> v.n]))
===============================================================================
