------------------------------- MODULE PlansGen -------------------------------
(* Physical plans drawn at random: a stack machine pushes leaves and applies operators to the topmost plans.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxLeaves, MaxSteps, Joins
VARIABLES st, c
vars == <<st, c>>
Decls == {"", "d1", "d2", "d3", "d4", "d7", "m1", "m2", "m3", "m5"}
Init == st = "cfg" /\ c = <<>>
Cfg == st = "cfg" /\ \E w \in 1..5, mt \in {0, 0, 1, 2, 3, 8}, ciu \in {TRUE, TRUE, TRUE, FALSE}, bc \in {TRUE, TRUE, FALSE}, fa \in {0, 0, 1, 2}, dy \in {FALSE, FALSE, FALSE, TRUE} :
       st' = "op" /\ c' = [workers |-> w, max |-> mt, ciu |-> ciu, bcast |-> bc, factor |-> fa, dyn |-> dy, stack |-> <<>>, leaves |-> <<>>, n |-> 0]
Top == c.stack[Len(c.stack)][1]
Wide(i) == c.stack[Len(c.stack) - i][2]
Repl(k, x, w) == st' = "op" /\ c' = [c EXCEPT !.stack = Append(SubSeq(@, 1, Len(@) - k), <<x, w>>), !.n = @ + 1]
Depth == Len(c.stack)
\* what can be done; towards the end the stack is reduced to one plan
Can == IF Depth = 0 THEN {"leaf"}
       ELSE IF c.n >= MaxSteps THEN (IF Depth > 1 THEN {IF Wide(0) = Wide(1) THEN "union" ELSE "cross"} ELSE {"end"})
       ELSE {"tap", "hash", "coalesce", "rr"} \cup (IF Len(c.leaves) < MaxLeaves /\ Depth < 4 THEN {"leaf", "leaf2", "leaf3"} ELSE {})
            \cup (IF Depth >= 2 /\ Wide(0) = Wide(1) THEN {"union"} ELSE {}) \cup (IF Depth >= 2 /\ Joins THEN {"join", "join2"} ELSE {})
            \cup (IF Depth >= 3 /\ Wide(0) = Wide(1) /\ Wide(1) = Wide(2) THEN {"union3"} ELSE {}) \cup (IF Depth = 1 /\ c.n > 2 THEN {"end"} ELSE {})
Pick == st = "op" /\ \E o \in Can : st' = (CASE o \in {"leaf2", "leaf3"} -> "leaf" [] o = "join2" -> "join" [] OTHER -> o) /\ UNCHANGED c
Leaf == st = "leaf" /\ \E d \in Decls, p \in 1..3, r \in {0, 1, 2, 5} :
        st' = "op" /\ c' = [c EXCEPT !.stack = Append(@, <<[op |-> "leaf", i |-> Len(c.leaves)], 2>>), !.leaves = Append(@, [decl |-> d, p |-> p, rows |-> r]), !.n = @ + 1]
L == c.stack[Len(c.stack) - 1][1]
Need(k) == Len(c.stack) >= k
Tap == st = "tap" /\ Need(1) /\ \E d \in Decls : Repl(1, [op |-> "tap", label |-> "t" \o ToString(c.n), mode |-> d, in |-> Top], Wide(0))
Hash == st = "hash" /\ Need(1) /\ \E k \in 1..4 : Repl(1, [op |-> "hash", n |-> k, in |-> Top], Wide(0))
RR == st = "rr" /\ Need(1) /\ \E k \in 1..3 : Repl(1, [op |-> "rr", n |-> k, in |-> Top], Wide(0))
Coalesce == st = "coalesce" /\ Need(1) /\ Repl(1, [op |-> "coalesce", in |-> Top], Wide(0))
Union2 == st = "union" /\ Need(2) /\ Repl(2, [op |-> "union", ins |-> <<L, Top>>], Wide(0))
Union3 == st = "union3" /\ Need(3) /\ Repl(3, [op |-> "union", ins |-> <<c.stack[Len(c.stack) - 2][1], L, Top>>], Wide(0))
Join == st = "join" /\ Joins /\ Need(2) /\ \E k \in 1..4, t \in {"Inner", "Left", "Right", "Full", "LeftSemi", "LeftAnti", "RightSemi", "RightAnti"}, m \in {"part", "collect", "nlj", "cross"} :
        Repl(2, CASE m = "part" -> [op |-> "hj", mode |-> "part", type |-> t, l |-> [op |-> "hash", n |-> k, in |-> L], r |-> [op |-> "hash", n |-> k, in |-> Top]]
                  [] m = "collect" -> [op |-> "hj", mode |-> "collect", type |-> t, l |-> [op |-> "coalesce", in |-> L], r |-> Top]
                  [] m = "nlj" -> [op |-> "nlj", type |-> t, l |-> [op |-> "coalesce", in |-> L], r |-> Top]
                  [] OTHER -> [op |-> "cross", l |-> [op |-> "coalesce", in |-> L], r |-> Top],
                IF m = "cross" \/ t \in {"Inner", "Left", "Right", "Full"} THEN Wide(0) + Wide(1) ELSE IF t \in {"LeftSemi", "LeftAnti"} THEN Wide(1) ELSE Wide(0))
Cross == st = "cross" /\ Repl(2, [op |-> "cross", l |-> [op |-> "coalesce", in |-> L], r |-> Top], Wide(0) + Wide(1))
End == st = "end" /\ \E w \in {"", "coalesce"} : st' = "done" /\ c' = [c EXCEPT !.stack = <<IF w = "" THEN Top ELSE [op |-> "coalesce", in |-> Top]>>]
Out == st = "done" /\ st' = "out" /\ UNCHANGED c
Next == Cfg \/ Pick \/ Leaf \/ Tap \/ Hash \/ RR \/ Coalesce \/ Union2 \/ Union3 \/ Join \/ Cross \/ End \/ Out
Spec == Init /\ [][Next]_vars
Emit == st # "out" \/ PrintT("CASE " \o ToJson(c))
===============================================================================
