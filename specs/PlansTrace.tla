----------------------------- MODULE PlansTrace -----------------------------
(* Distributed plans of the real planner and their executions, judged by Plans. *)
EXTENDS Plans, Json, IOUtils
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Step(tr, a, e) == IF a.bad # "" THEN a
                  ELSE LET j == Judge(tr, a.s, e) IN
                       IF j # "" THEN [a EXCEPT !.bad = j] ELSE [a EXCEPT !.s = After(@, e), !.n = @ + 1]
Verdict(tr) == LET p == JPlan(tr) IN IF p # "" THEN [s |-> Fresh, bad |-> p, n |-> 0]
               ELSE FoldLeft(LAMBDA a, e : Step(tr, a, e), [s |-> Fresh, bad |-> "", n |-> 0], tr.ev)
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET v == Verdict(Traces[i]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> v.bad, n |-> v.n]))
==============================================================================
