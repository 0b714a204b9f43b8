----------------------------- MODULE ErrorsTrace -----------------------------
(* Errors of executed queries, judged by Errors.                                *)
EXTENDS Errors, Json, IOUtils, TLC
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> Judge(Traces[i])]))
===============================================================================
