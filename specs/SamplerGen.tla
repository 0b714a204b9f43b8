------------------------------ MODULE SamplerGen ------------------------------
(* Dynamically planned chains of stages over scripted leaves, drawn at random.   *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES st, c
vars == <<st, c>>
Decls == {"", "d2", "d4", "m1", "m2", "m3"}
Init == st = "env" /\ c = [xs |-> <<>>, parts |-> <<>>]
Set(k, v) == c' = (k :> v) @@ c
Env == st = "env" /\ st' = "env2" /\ \E w \in 1..4, m \in {0, 1, 2, 3, 6}, g \in BOOLEAN, b \in {1, 40, 400, 100000} : c' = [workers |-> w, max |-> m, grpc |-> g, bytes |-> b] @@ c
Env2 == st = "env2" /\ st' = "leaf" /\ \E s \in {"", "exact", "small", "huge"}, k \in {1, 2, 5}, bt \in {0, 1, 3}, f \in {0, 100, 101, 102, 1, 3} : c' = [stats |-> s, keys |-> k, batch |-> bt, fetch |-> IF f >= 100 THEN 0 ELSE f] @@ c
Leaf == st = "leaf" /\ st' = "part" /\ \E d \in Decls, pl \in {"rr", "first", "last", "block", "rev"} : c' = [decl |-> d, place |-> pl] @@ c
\* the script of one more partition of the leaf: n > 0 rows, 0 an empty batch, -1 or -5 a short wait, -2 a long one, -3 a failure, -4 gives way once
Part == st = "part" /\ Len(c.parts) < 3 /\ st' = "item" /\ Set("parts", Append(c.parts, <<>>))
Last == c.parts[Len(c.parts)]
Item == st = "item" /\ st' = "item" /\ Len(Last) < 7 /\ \E v \in {1, 2, 4, 0, -1, -5, -2, -4} : Set("parts", [c.parts EXCEPT ![Len(c.parts)] = Append(@, v)])
Fail == st = "item" /\ c.keys = 2 /\ Len(Last) > 1 /\ st' \in {"part", "x"} /\ Set("parts", [c.parts EXCEPT ![Len(c.parts)] = Append(@, -3)])
NoItem == st = "item" /\ (Len(Last) > 2 \/ (Len(c.parts) > 1 /\ Len(c.parts[1]) > 2)) /\ st' \in {"part", "x"} /\ UNCHANGED c
PartX == st = "part" /\ Len(c.parts) = 3 /\ st' = "x" /\ UNCHANGED c
Add == st = "x" /\ Len(c.xs) < 2 /\ st' \in {"x", "top"} /\ \E n \in 1..4, d \in Decls, k \in {"shuffle", "shuffle2", "merge"} : Set("xs", Append(c.xs, [kind |-> IF k = "shuffle2" THEN "shuffle" ELSE k, N |-> n, decl |-> d]))
Top == st \in {"x", "top"} /\ st' = "done" /\ UNCHANGED c
Out == st = "done" /\ st' = "out" /\ UNCHANGED c
Next == Env \/ Env2 \/ Leaf \/ Part \/ Item \/ Fail \/ NoItem \/ PartX \/ Add \/ Top \/ Out
Spec == Init /\ [][Next]_vars
Emit == st # "out" \/ PrintT("CASE " \o ToJson(c))
================================================================================
