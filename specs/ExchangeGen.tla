----------------------------- MODULE ExchangeGen -----------------------------
(* Random exchange configurations: chains of one to three exchanges (user-made or planner-made), or two *)
(* shuffles that feed one partitioned operator.                                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxT, MaxP
VARIABLES st, c
vars == <<st, c>>
Init == st = "shape" /\ c = [xs |-> <<>>]
Set(k, v) == c' = (k :> v) @@ c
LastT == IF c.xs = <<>> THEN c.t0 ELSE c.xs[Len(c.xs)].C
LastP == IF c.xs = <<>> THEN c.p0 ELSE c.xs[Len(c.xs)].N
Shape == st = "shape" /\ st' = "leaf" /\ \E s \in {"user", "user", "planner", "copart"}, t \in 1..MaxT, p \in 1..MaxP, q \in 1..MaxT : c' = [shape |-> s, t0 |-> t, p0 |-> p, u0 |-> q] @@ c
Leaf == st = "leaf" /\ st' = "x" /\ \E r \in {0, 1, 1, 2, 3, 6}, sk \in {"even", "even", "first", "last", "odd"}, ks \in {1, 2, 3, 7}, b \in {1, 1, 3} :
          c' = [rows |-> r, skew |-> sk, keys |-> ks, per |-> b] @@ c
CeilDiv(a, b) == (a + b - 1) \div b
Add == st = "x" /\ Len(c.xs) < (IF c.shape = "copart" THEN 1 ELSE 3) /\ st' \in {"x", "env"} /\
       \E k \in (IF c.shape = "user" THEN {"shuffle", "gather", "bcast"} ELSE {"shuffle"}), C \in 1..MaxT, n \in 1..MaxP :
         LET N == CASE k = "gather" -> CeilDiv(LastT, C) * LastP [] k = "bcast" -> LastP [] OTHER -> n IN
         /\ N * C <= 24
         /\ Set("xs", Append(c.xs, [kind |-> k, T |-> LastT, P |-> LastP, C |-> C, N |-> N]))
Env1 == st = "env" /\ st' = "env2" /\ \E w \in 1..(MaxT + 1), g \in BOOLEAN, l \in {-1, 0}, rt \in {"", "rev", "one"} :
          c' = [workers |-> w, grpc |-> g, local |-> l, route |-> rt] @@ c
Env2 == st = "env2" /\ st' = "done" /\ \E d \in 0..5, sb \in {0, 1, 2}, bu \in {0, 1} : c' = [delay |-> d, sb |-> sb, budget |-> bu] @@ c
(* one more step, because TLC evaluates Emit on every successor and not only on the one it takes *)
Out == st = "done" /\ st' = "out" /\ UNCHANGED c
Next == Shape \/ Leaf \/ Add \/ Env1 \/ Env2 \/ Out
Spec == Init /\ [][Next]_vars
Emit == st # "out" \/ PrintT("CASE " \o ToJson(c))
==============================================================================
