----------------------------- MODULE WorkUnitsGen -----------------------------
(* Environments of QueryGen whose tables are fed with work units: which ones, in how many partitions, whether *)
(* a feed ends by itself, goes on for ever, or goes on after its reader has stopped, and how many units come  *)
(* at once.                                                                                                   *)
EXTENDS QueryGen
Feed == st = "out" /\ \E f \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>, <<TRUE, TRUE>>}, m \in {"ends", "ends", "ends", "endless", "stop"}, p \in {1, 2, 3}, b \in {0, 0, 0, 0, 0, 1} :
          Put([feeds |-> f, mode |-> m, pp |-> p, burst |-> b], "fed")
Fed == st = "fed" /\ st' = "all" /\ UNCHANGED c
UNext == Next \/ Feed \/ Fed
USpec == Init /\ [][UNext]_vars
UEmit == st # "all" \/ PrintT("CASE " \o ToJson(c))
===============================================================================
