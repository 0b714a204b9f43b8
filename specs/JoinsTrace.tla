------------------------------ MODULE JoinsTrace ------------------------------
(* Answers of real executions, judged by Joins. *)
EXTENDS Joins, Json, IOUtils
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Data(tr) == [j \in 1..Len(tr.data) |-> ToSet(tr.data[j])]
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> Answer(Data(Traces[i]), Traces[i].plan, Traces[i].rows)]))
==============================================================================
