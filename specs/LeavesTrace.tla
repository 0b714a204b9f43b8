----------------------------- MODULE LeavesTrace -----------------------------
(* Scans and answers of real executions, judged by Leaves. *)
EXTENDS Leaves, Json, IOUtils
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Q(tr) == [shape |-> tr.shape, c |-> tr.c, n |-> tr.n, t0 |-> ToSet(tr.t0), t1 |-> ToSet(tr.t1), big |-> ToSet(tr.big)]
W(tr) == IF tr.shape = "user" THEN JUser(tr) ELSE LET s == JScans(tr.scans) IN IF s # "" THEN s ELSE IF Right(Q(tr), tr.rows) THEN "" ELSE "leaf: wrong answer"
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> W(Traces[i])]))
==============================================================================
