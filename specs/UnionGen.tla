------------------------------- MODULE UnionGen -------------------------------
(* Every union of up to MaxBranches leaves: what each branch declares, how many partitions it has, and the    *)
(* limit of tasks.                                                                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Branches, Decls, Caps, Parts
VARIABLES st, c
Init == st = 0 /\ \E n \in Branches, cap \in Caps, p \in Parts : \E b \in [1..n -> Decls] : c = [b |-> b, cap |-> cap, p |-> p]
Next == st = 0 /\ st' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<st, c>>
Emit == st # 1 \/ PrintT("CASE " \o ToJson(c))
===============================================================================
