------------------------------- MODULE QueryGen -------------------------------
(* Environments for the life of a query: its shape, the cluster, at most two failures, and what the client  *)
(* does step by step (poll, let the sources go on, run another query meanwhile), until it drops the query   *)
(* or reads it to its end.                                                                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Shapes, MaxSteps, FaultKinds
VARIABLES st, c
vars == <<st, c>>
Init == st = "shape" /\ c = [faults |-> <<>>, steps |-> <<>>]
Put(r, next) == st' = next /\ c' = r @@ c
Shape == st = "shape" /\ \E s \in Shapes, dy \in {FALSE, FALSE, TRUE}, g \in BOOLEAN, w \in 1..4 : Put([shape |-> s, dyn |-> dy, grpc |-> g, workers |-> w], "data")
Data == st = "data" /\ \E t0 \in 1..4, p0 \in 1..2, r \in {1, 2, 2, 4}, per \in {1, 1, 2}, ga \in {FALSE, TRUE, TRUE} : Put([t0 |-> t0, p0 |-> p0, rows |-> r, per |-> per, gated |-> ga], "env")
Env == st = "env" /\ \E l \in {-1, -1, 0}, pa \in {1, 2, 3}, t1 \in 1..3, bu \in {0, 0, 1}, me \in BOOLEAN : Put([local |-> l, parts |-> pa, t1 |-> t1, budget |-> bu, metrics |-> me], "fault")
AddFault == st = "fault" /\ Len(c.faults) < 2 /\
   \E k \in FaultKinds, n \in {0, 0, 0, 1, 1, 2, 3, 5}, a \in 0..2 : st' \in {"fault", "steps"} /\ c' = [faults |-> Append(c.faults, [kind |-> k, nth |-> n, after |-> a])] @@ c
NoFault == st = "fault" /\ c.faults = <<>> /\ st' = "steps" /\ UNCHANGED c
Step == st = "steps" /\ Len(c.steps) < MaxSteps /\ \E x \in {"poll", "poll", "gate", "gate", "other", "bg", "wait"} : st' = "steps" /\ c' = [steps |-> Append(c.steps, x)] @@ c
End == st = "steps" /\ \E x \in {"drop", "all", "all"}, ag \in {"", "again", "rerun"} : Put([end |-> x, again |-> ag], "done")
Out == st = "done" /\ st' = "out" /\ UNCHANGED c
Next == Shape \/ Data \/ Env \/ AddFault \/ NoFault \/ Step \/ End \/ Out
Spec == Init /\ [][Next]_vars
Emit == st # "out" \/ PrintT("CASE " \o ToJson(c))
===============================================================================
