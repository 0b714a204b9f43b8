------------------------------- MODULE JoinsGen -------------------------------
(* Plans of joins and limits over small inputs, drawn at random by a stack machine. An entry of the stack is a plan, its
   width, a bound on its rows and whether it ends in a mark column. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxLeaves, MaxSteps, MaxRows
VARIABLES st, c
vars == <<st, c>>
Decls == {"", "d1", "d2", "d3", "d4", "m1", "m2", "m3"}
Types == {"Inner", "Left", "Right", "Full", "LeftSemi", "LeftAnti", "RightSemi", "RightAnti", "LeftMark", "RightMark"}
Init == st = "cfg" /\ c = <<>>
Cfg == st = "cfg" /\ \E w \in {1, 2, 3, 4, 5, 6}, mt \in {0, 2, 3, 8}, ciu \in BOOLEAN, bc \in {1, 2, 3, 0} : st' = "cfg2" /\ c' = [workers |-> w, max |-> mt, ciu |-> ciu, bcast |-> bc > 0]
Cfg2 == st = "cfg2" /\ \E fa \in {0, 1, 2}, dy \in {0, 1, 2, 3}, g \in {0, 1, 2, 3, 4, 5}, ba \in {1, 2, 8192} :
       st' = "op" /\ c' = [workers |-> c.workers, max |-> c.max, ciu |-> c.ciu, bcast |-> c.bcast, factor |-> fa, dyn |-> dy = 0, grpc |-> g = 0, batch |-> ba, stack |-> <<>>, leaves |-> <<>>, how |-> "", n |-> 0, lims |-> 0, joins |-> 0]
Depth == Len(c.stack)
E(i) == c.stack[Depth - i]
Top == E(0)
Sec == E(1)
Push(k, e) == SubSeq(c.stack, 1, Depth - k) \o <<e>>
Can == IF Depth = 0 THEN {"leaf"}
       ELSE IF c.n >= MaxSteps THEN (IF Depth > 1 THEN {"join"} ELSE {"end"})
       ELSE {"move", "move2"} \cup (IF Len(c.leaves) < MaxLeaves /\ Depth < 3 THEN {"leaf", "leaf2", "leaf3"} ELSE {})
            \cup (IF Depth >= 2 /\ Sec.w = Top.w /\ ~Sec.m /\ ~Top.m THEN {"union"} ELSE {})
            \cup (IF Depth >= 2 THEN {"join", "join2", "join3"} ELSE {})
            \cup (IF Top.r <= 6 /\ c.lims < 3 THEN {"limit", "limit2", "olimit"} ELSE {}) \cup (IF Depth = 1 /\ c.joins + c.lims > 0 THEN {"end"} ELSE {})
Pick == st = "op" /\ \E o \in Can : st' = (CASE o \in {"leaf2", "leaf3"} -> "leaf" [] o \in {"join2", "join3"} -> "join" [] o = "move2" -> "move" [] o = "limit2" -> "limit" [] OTHER -> o) /\ UNCHANGED c
Leaf == st = "leaf" /\ \E n \in {0} \cup 1..MaxRows : st' = "leafk" /\ c' = [c EXCEPT !.leaves = Append(@, [n |-> n])]
LeafK == st = "leafk" /\ LET i == Len(c.leaves) IN \E k \in [1..c.leaves[i].n -> {-1, 0, 1}] : st' = "leaf1" /\ c' = [c EXCEPT !.leaves[i] = [keys |-> k]]
Leaf1 == st = "leaf1" /\ \E d \in Decls, p \in 1..3 :
        LET i == Len(c.leaves) IN
        st' = "op" /\ c' = [c EXCEPT !.leaves[i] = [keys |-> @.keys, decl |-> d, p |-> p], !.n = @ + 1,
                                     !.stack = Append(@, [x |-> [op |-> "leaf", i |-> i - 1], w |-> 2, r |-> Len(c.leaves[i].keys), m |-> FALSE])]
Move == st = "move" /\ \E o \in {"tap", "hash", "hash2", "rr"}, k \in 1..3, d \in Decls :
        st' = "op" /\ c' = [c EXCEPT !.n = @ + 1, !.stack = Push(1, [Top EXCEPT !.x = CASE o = "tap" -> [op |-> "tap", label |-> "t" \o ToString(c.n), mode |-> d, in |-> @]
                                                                                     [] o = "rr" -> [op |-> "rr", n |-> k, in |-> @]
                                                                                     [] OTHER -> [op |-> "hash", n |-> k, in |-> @]])]
Union2 == st = "union" /\ st' = "op" /\ c' = [c EXCEPT !.n = @ + 1, !.stack = Push(2, [x |-> [op |-> "union", ins |-> <<Sec.x, Top.x>>], w |-> Top.w, r |-> Sec.r + Top.r, m |-> FALSE])]
How == st = "join" /\ \E m \in {"part", "collect", "collect2", "nlj", "cross", "smj", "na"} : st' = "join1" /\ c' = [c EXCEPT !.how = m]
Join == st = "join1" /\ \E n \in 1..3, t \in (IF c.how = "na" THEN {"LeftAnti"} ELSE Types), f \in (IF c.how = "na" THEN {FALSE} ELSE BOOLEAN) :
        LET m == c.how
            x == IF m = "cross" THEN [op |-> "cross", l |-> Sec.x, r |-> Top.x]
                 ELSE [op |-> "join", how |-> IF m \in {"collect2", "na"} THEN "collect" ELSE m, n |-> n, type |-> t, keyed |-> m # "nlj", filt |-> f, na |-> m = "na", l |-> Sec.x, r |-> Top.x]
            both == m = "cross" \/ t \in {"Inner", "Left", "Right", "Full"}
            mk == m # "cross" /\ t \in {"LeftMark", "RightMark"}
            left == t \in {"LeftSemi", "LeftAnti", "LeftMark"}
        IN st' = "op" /\ c' = [c EXCEPT !.n = @ + 1, !.joins = @ + 1,
                 !.stack = Push(2, [x |-> x, w |-> IF both THEN Sec.w + Top.w ELSE (IF left THEN Sec.w ELSE Top.w) + (IF mk THEN 1 ELSE 0),
                                    r |-> IF both THEN Sec.r * Top.r + Sec.r + Top.r ELSE IF left THEN Sec.r ELSE Top.r,
                                    m |-> mk \/ (both /\ (Sec.m \/ Top.m)) \/ (~both /\ IF left THEN Sec.m ELSE Top.m)])]
Lim(final) == \E v \in 0..3, s \in {0, 1, 2}, f \in (IF final THEN {-1, 0, 1, 2, 3, 5, 40} ELSE {-1, 1, 2, 3}) :
        (f = -1 => s > 0) /\ (v >= 2 => f >= 0 /\ s = 0) /\ c' = [c EXCEPT !.n = @ + 1, !.lims = @ + 1, !.stack = Push(1, [Top EXCEPT !.x = [op |-> "limit", skip |-> s, fetch |-> f, form |-> v, in |-> @], !.r = IF f < 0 \/ f > @ THEN @ ELSE f])]
OLim(final) == \E v \in 0..3, s \in {0, 1, 2}, f \in (IF final THEN {-1, 1, 2, 3, 5, 40} ELSE {1, 2, 3}), col \in 1..2 :
        (f = -1 => s > 0) /\ (v = 2 => f >= 0 /\ s = 0) /\ c' = [c EXCEPT !.n = @ + 1, !.lims = @ + 1, !.stack = Push(1, [Top EXCEPT !.x = [op |-> "olimit", col |-> col, skip |-> s, fetch |-> f, form |-> v, in |-> @], !.r = IF f < 0 \/ f > @ THEN @ ELSE f])]
Limit == st = "limit" /\ Lim(FALSE) /\ st' = "op"
OLimit == st = "olimit" /\ OLim(FALSE) /\ st' = "op"
End == st = "end" /\ \/ st' = "done" /\ UNCHANGED c
                     \/ st' = "elim" /\ UNCHANGED c
                     \/ st' = "eolim" /\ UNCHANGED c
                     \/ st' = "done" /\ \E k \in 1..2 : c' = [c EXCEPT !.stack = Push(1, [Top EXCEPT !.x = [op |-> "order", col |-> k, in |-> @]])]
ELim == st = "elim" /\ Lim(TRUE) /\ st' = "done"
EOLim == st = "eolim" /\ OLim(TRUE) /\ st' = "done"
Out == st = "done" /\ st' = "out" /\ UNCHANGED c
Next == Cfg \/ Cfg2 \/ Pick \/ Leaf \/ LeafK \/ How \/ Leaf1 \/ Move \/ Union2 \/ Join \/ Limit \/ OLimit \/ End \/ ELim \/ EOLim \/ Out
Spec == Init /\ [][Next]_vars
Emit == st # "out" \/ PrintT("CASE " \o ToJson(c))
===============================================================================
