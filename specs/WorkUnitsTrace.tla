---------------------------- MODULE WorkUnitsTrace ----------------------------
(* Recorded histories of queries over leaves that are fed with work units, judged by WorkUnits. *)
EXTENDS WorkUnits, Json, IOUtils
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Step(tr, a, e) == IF a.bad # "" THEN a
                  ELSE LET j == UJudge(tr, a.s, e) IN
                       IF j # "" THEN [a EXCEPT !.bad = j] ELSE [a EXCEPT !.s = UAfter(tr, @, e), !.n = @ + 1]
Verdict(tr) == FoldLeft(LAMBDA a, e : Step(tr, a, e), [s |-> UFresh(tr), bad |-> "", n |-> 0], tr.ev)
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET v == Verdict(Traces[i]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> v.bad, n |-> v.n]))
===============================================================================
