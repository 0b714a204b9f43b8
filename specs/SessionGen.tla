------------------------------ MODULE SessionGen ------------------------------
(* Histories: two sessions on one cluster, options and headers set and set again, queries of any depth issued  *)
(* between them and answered later. A value is a number: the driver has a list of values for every class.      *)
EXTENDS Session, Json
CONSTANTS MaxOps, MaxQ
VARIABLES c, st
vars == <<c, st>>
Init == c = [x |-> 0] /\ st = "new"
Put(r, s) == c' = r @@ c /\ st' = s
Setup == st = "new" /\ \E w \in {1, 2, 3}, g \in BOOLEAN, d \in {0, 0, 1}, rj \in BOOLEAN, l \in {0, 0, 1}, gv \in {0, 1, 2, 3} :
           Put([workers |-> w, grpc |-> g, dyn |-> (d = 1), reinject |-> rj, loc |-> (l = 1), given |-> gv, ops |-> <<>>, exts |-> <<>>, open |-> <<>>, nq |-> 0], "exts")
SetExts == st = "exts" /\ \E e \in SUBSET Exts : Put([exts |-> Append(c.exts, e)], IF Len(c.exts) = 1 THEN "menu" ELSE "exts")
Op(r) == Put([ops |-> Append(c.ops, r)], "menu")
Menu == st = "menu" /\ \E m \in {"set", "set", "set2", "set3", "api", "headers", "start", "start2", "answer", "reg", "over"} :
          /\ m = "over" => c.nq > 0 /\ Len(c.ops) > 4
          /\ (Len(c.ops) >= MaxOps) => m = "over"
          /\ m \in {"start", "start2"} => c.nq < MaxQ
          /\ m = "answer" => c.open # <<>>
          /\ Put([x |-> 0], IF m \in {"set2", "set3"} THEN "set" ELSE IF m = "start2" THEN "start" ELSE m)
Set == st = "set" /\ \E i \in Keys, v \in 1..12 : \E s \in {0, 1} : Op([do |-> "set", s |-> s, i |-> i, v |-> v])
Api == st = "api" /\ \E i \in {j \in Keys : Tab[j].ext = "distributed"}, v \in 1..4, s \in {0, 1} : Op([do |-> "api", s |-> s, i |-> i, v |-> v])
Headers == st = "headers" /\ \E h \in 1..40, s \in {0, 1} : Op([do |-> "headers", s |-> s, h |-> h])
Reg == st = "reg" /\ \E e \in Exts, s \in {0, 1} : Op([do |-> "reg", s |-> s, ext |-> e])
Start == st = "start" /\ \E s \in {0, 1}, d \in {1, 2, 3}, t \in {1, 2, 3}, n \in {1, 2} :
           Put([ops |-> Append(c.ops, [do |-> "start", s |-> s, q |-> c.nq, depth |-> d, tasks |-> t, n |-> n]), open |-> Append(c.open, c.nq), nq |-> c.nq + 1], "menu")
Answer == st = "answer" /\ \E j \in DOMAIN c.open : Put([ops |-> Append(c.ops, [do |-> "answer", q |-> c.open[j]]), open |-> SubSeq(c.open, 1, j - 1) \o SubSeq(c.open, j + 1, Len(c.open))], "menu")
Over == st = "over" /\ st' = "all" /\ UNCHANGED c
Next == Setup \/ SetExts \/ Menu \/ Set \/ Api \/ Headers \/ Reg \/ Start \/ Answer \/ Over
Spec == Init /\ [][Next]_vars
Emit == st # "all" \/ PrintT("CASE " \o ToJson(c))
===============================================================================
