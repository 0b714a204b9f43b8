----------------------------- MODULE UserLeafGen -----------------------------
(* Every user split in the bounds of Leaves.Users. *)
EXTENDS Leaves, Json
VARIABLE u
Init == u \in Users
Next == FALSE /\ u' = u
Spec == Init /\ [][Next]_u
Emit == PrintT("CASE " \o ToJson(u))
==============================================================================
