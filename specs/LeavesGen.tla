------------------------------ MODULE LeavesGen ------------------------------
(* Tables of files, deployments and queries, drawn at random. *)
EXTENDS Leaves, Json
CONSTANTS MaxFiles
VARIABLES st, c
vars == <<st, c>>
Init == st = "cfg" /\ c = <<>>
Cfg == st = "cfg" /\ \E w \in 1..6, p \in 1..3, b \in {1, 3, 10, 60, 300, 5000}, mt \in {0, 1, 2, 5} :
       st' = "cfg2" /\ c' = [workers |-> w, parts |-> p, bytes |-> b, max |-> mt, tabs |-> <<>>]
Cfg2 == st = "cfg2" /\ \E pr \in BOOLEAN, ms \in BOOLEAN, th \in BOOLEAN, g \in {0, 1, 2, 3}, ci \in BOOLEAN, bc \in BOOLEAN, dy \in {0, 1, 2} :
       st' = "tab" /\ c' = [workers |-> c.workers, parts |-> c.parts, bytes |-> c.bytes, max |-> c.max, tabs |-> <<>>,
                            preserve |-> pr, minsize |-> ms, part |-> th, grpc |-> g = 0, ciu |-> ci, bcast |-> bc, dyn |-> dy = 0]
NT == Len(c.tabs)
Tab == st = "tab" /\ NT < 2 /\ \E f \in {"csv", "parquet"}, h \in {0, 1, 2}, so \in {0, 1, 2}, s \in BOOLEAN : st' = "file"
       /\ c' = [c EXCEPT !.tabs = Append(@, [fmt |-> f, hive |-> h > 0, sorted |-> so = 0 /\ h = 0, stat |-> s, files |-> <<>>])]
File == st = "file" /\ \E h \in 1..3, n \in 0..4, rg \in {1, 2, 1000} : st' = "more" /\ c' = [c EXCEPT !.tabs[NT].files = Append(@, [h |-> h, n |-> n, rg |-> rg])]
More == st = "more" /\ UNCHANGED c /\ \/ st' = "file" /\ Len(c.tabs[NT].files) < MaxFiles
                                      \/ st' = "file" /\ Len(c.tabs[NT].files) < 3
                                      \/ st' = IF NT < 2 THEN "tab" ELSE "query"
Query == st = "query" /\ \E s \in Shapes : st' = "big" /\ c' = [workers |-> c.workers, parts |-> c.parts, bytes |-> c.bytes, max |-> c.max, tabs |-> c.tabs, preserve |-> c.preserve, minsize |-> c.minsize,
       part |-> c.part, grpc |-> c.grpc, ciu |-> c.ciu, bcast |-> c.bcast, dyn |-> c.dyn, shape |-> s]
Big == st = "big" /\ \E d \in {"", "d2", "d3", "d5", "m1", "m2", "m4"}, n \in {0, 1, 5} : st' = "done" /\ c' = [cfg |-> c, big |-> d, nbig |-> n]
Out == st = "done" /\ st' = "out" /\ UNCHANGED c
Next == Cfg \/ Cfg2 \/ Tab \/ File \/ More \/ Query \/ Big \/ Out
Spec == Init /\ [][Next]_vars
Emit == st # "out" \/ PrintT("CASE " \o ToJson(c))
==============================================================================
