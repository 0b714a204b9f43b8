----------------------------- MODULE HandlersGen -----------------------------
(* Environments: a cluster, a plan, and for every kind of handler up to three of them with an answer for every  *)
(* stage (or leaf), mostly declining, seldom failing.                                                           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxHandlers
VARIABLES c, st
vars == <<c, st>>
Init == c = [x |-> 0] /\ st = "env"
Put(r, s) == c' = r @@ c /\ st' = s
Env == st = "env" /\ \E w \in 1..4, g \in BOOLEAN, d \in {0, 0, 1}, l \in {0, 0, 1}, u \in {0, 0, 1} :
         Put([workers |-> w, grpc |-> g, dyn |-> (d = 1 /\ u = 0), loc |-> (l = 1), user |-> (u = 1)], "plan")
Plan == st = "plan" /\ \E s \in {"chain", "chain2", "join"}, d \in 1..3, lf \in {"l0", "l0x", "f"}, t \in 1..5, t2 \in 1..5, n \in 1..3, rn \in {1, 1, 2}, fails \in {0, 0, 1} :
         Put([shape |-> s, depth |-> d, leaf |-> lf, t0 |-> t, t1 |-> t2, n |-> n, runs |-> rn, fails |-> (fails = 1), route |-> <<>>, desired |-> <<>>, scale |-> <<>>, rewrite |-> <<>>], "route")
Ans(kind) == CASE kind = "route" -> {"none", "none2", "urls", "urls2"} \cup (IF c.fails THEN {"short", "long", "err", "panic"} ELSE {})
               [] kind = "desired" -> {"none", "none2", "desired", "maximum"} \cup (IF c.fails THEN {"err"} ELSE {})
               [] kind = "scale" -> {"none", "su", "su2"} \cup (IF c.fails THEN {"err"} ELSE {})
               [] kind = "rewrite" -> {"wrap", "wrap2", "keep"} \cup (IF c.fails THEN {"err", "panic"} ELSE {})
After(kind) == CASE kind = "route" -> "desired" [] kind = "desired" -> "scale" [] kind = "scale" -> "rewrite" [] OTHER -> "out"
Kinds == {"route", "desired", "scale", "rewrite"}
More == st \in Kinds /\ Len(c[st]) < MaxHandlers /\ \E p \in {0, 0, 1}, a, b, d \in Ans(st) : Put(st :> Append(c[st], [pre |-> (p = 1), ans |-> <<a, b, d>>]), st)
Enough == st \in Kinds /\ \E z \in 1..40 : Put([z |-> z], After(st))
Out == st = "out" /\ st' = "all" /\ UNCHANGED c
Next == Env \/ Plan \/ More \/ Enough \/ Out
Spec == Init /\ [][Next]_vars
Emit == st # "all" \/ PrintT("CASE " \o ToJson(c))
===============================================================================
