------------------------------ MODULE QueryTrace ------------------------------
(* Recorded histories of queries on the real code, judged by Query. *)
EXTENDS Query, Json, IOUtils
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Step(tr, a, e) == IF a.bad # "" THEN a
                  ELSE LET j == Judge(tr, a.s, e) IN
                       IF j # "" THEN [a EXCEPT !.bad = j] ELSE [a EXCEPT !.s = After(tr, @, e), !.n = @ + 1]
Verdict(tr) == FoldLeft(LAMBDA a, e : Step(tr, a, e), [s |-> Fresh(tr), bad |-> "", n |-> 0], tr.ev)
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET v == Verdict(Traces[i]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> v.bad, n |-> v.n]))
===============================================================================
