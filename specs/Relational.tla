----------------------------- MODULE Relational -----------------------------
(* The meaning of a query, independent of how it is executed: a stack machine *)
(* whose actions are relational operators applied to bags of rows with NULLs. *)
(* Every behaviour is one query (variable prog) together with its answer.     *)
(* Distribution must be invisible: whatever stages, tasks and exchanges the   *)
(* engine cuts the query into, it has to return `Top` (C01, C07, C16).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS MaxOps, MaxRows, Bias   \* Bias: "all" | "joins" | "limits" | "aggs"
NULL == -999
VARIABLES tabs, stack, prog, done, goal   \* goal: number of operators after which the walk only combines what it has
vars == <<tabs, stack, prog, done, goal>>

Tabs == 1..3
Vals == {NULL, 0, 1, 2, 3}
Keys == {NULL, 0, 1, 2}

(* ---------- bags are sequences; only their multiset matters ---------- *)
Filt(rel, P(_)) == SelectSeq(rel, P)
Map(rel, f(_)) == [i \in 1..Len(rel) |-> f(rel[i])]
Flat(ss) == FoldLeft(LAMBDA a, b: a \o b, <<>>, ss)
Nulls(n) == [i \in 1..n |-> NULL]
CountOf(rel, r) == Len(SelectSeq(rel, LAMBDA x: x = r))
DistinctRel(rel) == SetToSeq(ToSet(rel))

(* three-valued comparisons: 1 true, 0 false, NULL unknown *)
Cmp(op, a, b) ==
  IF a = NULL \/ b = NULL THEN NULL
  ELSE CASE op = "=" -> IF a = b THEN 1 ELSE 0
         [] op = "<" -> IF a < b THEN 1 ELSE 0
         [] op = "<>" -> IF a # b THEN 1 ELSE 0
Holds(p, r) == IF p.k = "isnull" THEN r[p.c] = NULL
               ELSE IF p.k = "notnull" THEN r[p.c] # NULL
               ELSE IF p.k = "cc" THEN Cmp(p.op, r[p.c], r[p.d]) = 1
               ELSE Cmp(p.op, r[p.c], p.v) = 1

(* SQL order used by ORDER BY c1, c2, ...: ascending, NULLs last, or descending, NULLs first *)
RECURSIVE LexLess(_, _, _, _)
LexLess(a, b, i, desc) ==
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] = b[i] THEN LexLess(a, b, i + 1, desc)
  ELSE LET lt == IF a[i] = NULL THEN FALSE ELSE IF b[i] = NULL THEN TRUE ELSE a[i] < b[i]
       IN IF desc THEN ~lt ELSE lt
Sorted(rel, desc) == SortSeq(rel, LAMBDA a, b: LexLess(a, b, 1, desc))
Slice(rel, skip, fetch) == SubSeq(rel, Min({skip, Len(rel)}) + 1, Min({skip + fetch, Len(rel)}))

(* joins: match relation M(l, r) *)
Match(j, l, r) == CASE j.on = "true" -> TRUE
                    [] j.on = "eqlt" -> Cmp("=", l[j.c], r[j.d]) = 1 /\ Cmp("<", l[2], r[2]) = 1
                    [] OTHER -> Cmp(j.on, l[j.c], r[j.d]) = 1
Inner(j, L, R) == Flat(Map(L, LAMBDA l: Map(SelectSeq(R, LAMBDA r: Match(j, l, r)), LAMBDA r: l \o r)))
NoR(j, L, R) == SelectSeq(L, LAMBDA l: ~ \E i \in 1..Len(R): Match(j, l, R[i]))
HasR(j, L, R) == SelectSeq(L, LAMBDA l: \E i \in 1..Len(R): Match(j, l, R[i]))
NoL(j, L, R) == SelectSeq(R, LAMBDA r: ~ \E i \in 1..Len(L): Match(j, L[i], r))
Join(j, L, R, nl, nr) ==
  CASE j.t = "inner" -> Inner(j, L, R)
    [] j.t = "left" -> Inner(j, L, R) \o Map(NoR(j, L, R), LAMBDA l: l \o Nulls(nr))
    [] j.t = "right" -> Inner(j, L, R) \o Map(NoL(j, L, R), LAMBDA r: Nulls(nl) \o r)
    [] j.t = "full" -> Inner(j, L, R) \o Map(NoR(j, L, R), LAMBDA l: l \o Nulls(nr)) \o Map(NoL(j, L, R), LAMBDA r: Nulls(nl) \o r)
    [] j.t = "semi" -> HasR(j, L, R)
    [] j.t = "anti" -> NoR(j, L, R)
    [] j.t = "mark" -> SelectSeq(L, LAMBDA l: (\E i \in 1..Len(R): Match(j, l, R[i])) \/ Cmp("=", l[1], j.v) = 1)
    \* NOT IN: a row qualifies only if no element equals it and nothing is unknown
    [] j.t = "notin" -> SelectSeq(L, LAMBDA l: \A i \in 1..Len(R): Cmp("=", l[j.c], R[i][j.d]) = 0)
JoinCols(j, nl, nr) == IF j.t \in {"semi", "anti", "mark", "notin"} THEN nl ELSE nl + nr

(* aggregates over column c, grouping by column g (0 = none) *)
Sum(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
NN(rel, c) == SelectSeq(Map(rel, LAMBDA r: r[c]), LAMBDA x: x # NULL)
Agg1(f, rel, c) ==
  CASE f = "count" -> Len(rel)
    [] f = "countc" -> Len(NN(rel, c))
    [] f = "countd" -> Cardinality(ToSet(NN(rel, c)))
    [] f = "sum" -> IF NN(rel, c) = <<>> THEN NULL ELSE Sum(NN(rel, c))
    [] f = "min" -> IF NN(rel, c) = <<>> THEN NULL ELSE Min(ToSet(NN(rel, c)))
    [] f = "max" -> IF NN(rel, c) = <<>> THEN NULL ELSE Max(ToSet(NN(rel, c)))
GroupBy(rel, g, f1, f2, c) ==
  LET ks == SetToSeq({rel[i][g] : i \in 1..Len(rel)})
  IN Map(ks, LAMBDA k: LET sub == SelectSeq(rel, LAMBDA r: r[g] = k) IN <<k, Agg1(f1, sub, c), Agg1(f2, sub, c)>>)
Window(rel, g, c) == Map(rel, LAMBDA r: r \o <<Agg1("sum", SelectSeq(rel, LAMBDA x: x[g] = r[g]), c)>>)

(* GROUP BY over grouping sets: one group-by per set, the columns left out are NULL; aggregates may have a FILTER. The empty set is
   left out: DataFusion itself repeats its row for every partition that happens to be empty. *)
GSets(k) == CASE k = "both" -> {{1, 2}} [] k = "rollup" -> {{1, 2}, {1}} [] k = "cube" -> {{1, 2}, {1}, {2}} [] k = "sets" -> {{1}, {2}} [] k = "sets2" -> {{1, 2}, {2}}
Agg2(f, rel, c) == IF f = "sumd" THEN (IF NN(rel, c) = <<>> THEN NULL ELSE Sum(SetToSeq(ToSet(NN(rel, c))))) ELSE Agg1(f, rel, c)
GroupG(rel, k, g, h, f1, f2, c, flt) ==
  LET kept(sub) == IF flt.c = 0 THEN sub ELSE SelectSeq(sub, LAMBDA r: Cmp("<", r[flt.c], flt.v) = 1)
      key(S, r) == <<IF 1 \in S THEN r[g] ELSE NULL, IF 2 \in S THEN r[h] ELSE NULL>>
      one(S) == LET ks == SetToSeq({key(S, rel[i]) : i \in 1..Len(rel)}) IN
                Map(ks, LAMBDA kk: LET sub == SelectSeq(rel, LAMBDA r: key(S, r) = kk) IN kk \o <<Agg2(f1, kept(sub), c), Agg2(f2, sub, c)>>)
  IN Flat(Map(SetToSeq(GSets(k)), one))
(* window functions whose answer does not depend on how ties are broken *)
Before(a, b) == IF a = NULL THEN FALSE ELSE b = NULL \/ a < b
WinOf(k, rel, r, g, c) ==
  LET part == IF g = 0 THEN rel ELSE SelectSeq(rel, LAMBDA x: x[g] = r[g]) IN
  CASE k = "rank" -> 1 + Len(SelectSeq(part, LAMBDA x: Before(x[c], r[c])))
    [] k = "dense" -> 1 + Cardinality({x[c] : x \in {y \in ToSet(part): Before(y[c], r[c])}})
    [] k = "running" -> Agg1("sum", SelectSeq(part, LAMBDA x: ~Before(r[c], x[c])), c)
    [] k = "count" -> Len(part)
    [] k = "max" -> Agg1("max", part, c)
WinRel(k, rel, g, c) == Map(rel, LAMBDA r: r \o <<WinOf(k, rel, r, g, c)>>)

(* ---------------- the machine ---------------- *)
Top == stack[Len(stack)]
Under == stack[Len(stack) - 1]
Rest(n) == SubSeq(stack, 1, Len(stack) - n)
RE(S) == RandomElement(S)
Sizes == {0, 1, 2, 3, 5, 6, 8}
GenTab(n) == [i \in 1..n |-> <<RE(Keys), RE(Vals)>>]

Init == tabs = <<>> /\ stack = <<>> /\ prog = <<>> /\ done = FALSE /\ goal = 0
Load == /\ tabs = <<>>
        /\ \E a \in {RE(Sizes)}, b \in {RE(Sizes)}, c \in {RE(Sizes)}:
             \E x \in {GenTab(a)}, y \in {GenTab(b)}, z \in {GenTab(c)}: tabs' = <<x, y, z>>
        /\ \E g \in {RE(2..MaxOps)}: goal' = g
        /\ UNCHANGED <<stack, prog, done>>
Ready == tabs # <<>> /\ ~done /\ Len(prog) < goal
Combine == tabs # <<>> /\ ~done /\ Len(prog) < MaxOps + 3
NoLim == \A i \in 1..Len(prog): prog[i].op # "limit"

Push(op, rel, n) == /\ Len(rel) <= MaxRows
                    /\ prog' = Append(prog, op)
                    /\ UNCHANGED <<tabs, done, goal>>
Scan == /\ Ready /\ Len(stack) < 3
        /\ \E t \in {RE(Tabs)}: Push([op |-> "scan", t |-> t], tabs[t], 2) /\ stack' = Append(stack, [rel |-> tabs[t], n |-> 2])
Pred(n) == [k |-> RE({"cv", "cv", "cc", "isnull", "notnull"}), c |-> RE(1..n), d |-> RE(1..n), op |-> RE({"=", "<", "<>"}), v |-> RE(0..2)]
Filter == /\ Ready /\ stack # <<>> /\ NoLim
          /\ \E p \in {Pred(Top.n)}: LET rel == SelectSeq(Top.rel, LAMBDA r: Holds(p, r)) IN
             Push([op |-> "filter", p |-> p], rel, Top.n) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> Top.n])
Project == /\ Ready /\ stack # <<>> /\ NoLim
           /\ \E a \in {RE(1..Top.n)}, b \in {RE(1..Top.n)}, plus \in {RE({TRUE, FALSE})}:
              LET rel == Map(Top.rel, LAMBDA r: <<r[a], IF plus /\ r[b] # NULL THEN r[b] + 10 ELSE r[b]>>) IN
              Push([op |-> "project", a |-> a, b |-> b, plus |-> plus], rel, 2) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> 2])
JTypes == {"inner", "left", "right", "full", "semi", "anti", "mark", "notin"}
JoinA == /\ Combine /\ Len(stack) >= 2 /\ NoLim
         /\ \E t \in {RE(JTypes)}: \E
                on \in {IF t \in {"semi", "anti", "mark"} THEN RE({"=", "=", "=", "<"}) ELSE IF t = "notin" THEN "=" ELSE RE({"=", "=", "=", "=", "<", "eqlt", "true"})}:
            \E j \in {[op |-> "join", t |-> t, on |-> IF t \in {"left", "right", "full"} /\ on = "true" THEN "<" ELSE on, c |-> RE(1..Under.n), d |-> RE(1..Top.n), v |-> RE(0..2)]}:
            LET rel == Join(j, Under.rel, Top.rel, Under.n, Top.n) n == JoinCols(j, Under.n, Top.n) IN
            /\ n <= 6
            /\ Push(j, rel, n) /\ stack' = Append(Rest(2), [rel |-> rel, n |-> n])
SetOp == /\ Combine /\ Len(stack) >= 2 /\ Under.n = Top.n /\ NoLim
         /\ \E k \in {RE({"unionall", "unionall", "unionall", "union", "intersect", "except"})}:
            LET rel == CASE k = "unionall" -> Under.rel \o Top.rel
                         [] k = "union" -> DistinctRel(Under.rel \o Top.rel)
                         [] k = "intersect" -> SetToSeq(ToSet(Under.rel) \cap ToSet(Top.rel))
                         [] k = "except" -> SetToSeq(ToSet(Under.rel) \ ToSet(Top.rel)) IN
            Push([op |-> "setop", k |-> k], rel, Top.n) /\ stack' = Append(Rest(2), [rel |-> rel, n |-> Top.n])
AggA == /\ Ready /\ stack # <<>> /\ NoLim
        /\ \E g \in {RE(0..Top.n)}, c \in {RE(1..Top.n)}, f1 \in {RE({"count", "countc", "sum"})}, f2 \in {RE({"min", "max", "countd", "sum"})}:
           LET rel == IF g = 0 THEN << <<Agg1(f1, Top.rel, c), Agg1(f2, Top.rel, c)>> >> ELSE GroupBy(Top.rel, g, f1, f2, c)
               n == IF g = 0 THEN 2 ELSE 3 IN
           Push([op |-> "agg", g |-> g, c |-> c, f1 |-> f1, f2 |-> f2], rel, n) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> n])
AggG == /\ Ready /\ stack # <<>> /\ NoLim /\ Top.rel # <<>>
        /\ \E k \in {RE({"both", "rollup", "cube", "sets", "sets2"})}, g \in {RE(1..Top.n)}, dh \in {RE(1..(Top.n - 1))}, c \in {RE(1..Top.n)}, f1 \in {RE({"count", "countc", "sum", "sumd", "max"})},
              f2 \in {RE({"min", "count", "countd", "sum"})}, fc \in {RE(0..Top.n)}, v \in {RE(0..3)}:
           LET h == ((g + dh - 1) % Top.n) + 1
               rel == GroupG(Top.rel, k, g, h, f1, f2, c, [c |-> fc, v |-> v]) IN
           Push([op |-> "aggg", k |-> k, g |-> g, h |-> h, c |-> c, f1 |-> f1, f2 |-> f2, fc |-> fc, v |-> v], rel, 4) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> 4])
Distinct == /\ Ready /\ stack # <<>> /\ NoLim
            /\ LET rel == DistinctRel(Top.rel) IN Push([op |-> "distinct"], rel, Top.n) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> Top.n])
WindowA == /\ Ready /\ stack # <<>> /\ Top.n < 6 /\ NoLim
           /\ \E g \in {RE(1..Top.n)}, c \in {RE(1..Top.n)}: LET rel == Window(Top.rel, g, c) IN
              Push([op |-> "window", g |-> g, c |-> c], rel, Top.n + 1) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> Top.n + 1])
WindowK == /\ Ready /\ stack # <<>> /\ Top.n < 6 /\ NoLim
           /\ \E k \in {RE({"rank", "dense", "running", "count", "max"})}, g \in {RE(0..Top.n)}, c \in {RE(1..Top.n)}: LET rel == WinRel(k, Top.rel, g, c) IN
              Push([op |-> "windowk", k |-> k, g |-> g, c |-> c], rel, Top.n + 1) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> Top.n + 1])
ScalarSub == /\ Combine /\ Len(stack) >= 2 /\ Under.n < 6 /\ NoLim
             /\ \E c \in {RE(1..Top.n)}, f \in {RE({"count", "max", "min", "sum"})}:
                LET v == Agg1(f, Top.rel, c) IN LET rel == Map(Under.rel, LAMBDA r: r \o <<v>>) IN
                Push([op |-> "scalar", c |-> c, f |-> f], rel, Under.n + 1) /\ stack' = Append(Rest(2), [rel |-> rel, n |-> Under.n + 1])
\* ORDER BY all columns + LIMIT/OFFSET: a determined multiset, may be nested
Order == /\ Ready /\ stack # <<>> /\ NoLim
         /\ \E desc \in {RE({TRUE, FALSE})}, skip \in {RE({0, 1, 2})}, fetch \in {RE({0, 1, 2, 3, 5, 100})}:
            LET rel == Slice(Sorted(Top.rel, desc), skip, fetch) IN
            Push([op |-> "order", desc |-> desc, skip |-> skip, fetch |-> fetch], rel, Top.n) /\ stack' = Append(Rest(1), [rel |-> rel, n |-> Top.n])
\* LIMIT without an order: any rows will do; only as the last operator
Limit == /\ Ready /\ Len(stack) = 1 /\ NoLim /\ Len(prog) > 1
         /\ \E fetch \in {RE({0, 1, 2, 4, 7, 100})}, skip \in {RE({0, 1})}:
            Push([op |-> "limit", fetch |-> fetch, skip |-> skip], Top.rel, Top.n) /\ UNCHANGED stack
Finish == /\ ~done /\ tabs # <<>> /\ Len(stack) = 1 /\ Len(prog) >= goal /\ done' = TRUE /\ UNCHANGED <<tabs, stack, prog, goal>>
\* the bias repeats some operators, so that random walks pick them more often
Next == \/ Load \/ Scan \/ Filter \/ Project \/ SetOp \/ JoinA \/ AggA \/ AggG \/ Distinct \/ WindowA \/ WindowK \/ ScalarSub \/ Order \/ Limit \/ Finish
        \/ (Bias = "joins" /\ (\/ JoinA \/ Scan \/ JoinA \/ Scan)) \/ (Bias = "aggs" /\ (\/ AggA \/ AggG \/ AggG \/ AggG)) \/ (Bias = "limits" /\ (\/ Order \/ Limit \/ JoinA \/ Scan))
        \/ Scan \/ Scan \/ JoinA \/ JoinA \/ SetOp
Spec == Init /\ [][Next]_vars

(* sanity of the semantics itself, checked on every generated state *)
Arity == \A i \in 1..Len(stack): \A k \in 1..Len(stack[i].rel): Len(stack[i].rel[k]) = stack[i].n
JoinLaws == Len(stack) >= 2 =>
   LET j == [t |-> "inner", on |-> "=", c |-> 1, d |-> 1, v |-> 0] IN
     /\ Len(HasR(j, Under.rel, Top.rel)) + Len(NoR(j, Under.rel, Top.rel)) = Len(Under.rel)
     /\ Len(Join([j EXCEPT !.t = "full"], Under.rel, Top.rel, Under.n, Top.n))
        = Len(Inner(j, Under.rel, Top.rel)) + Len(NoR(j, Under.rel, Top.rel)) + Len(NoL(j, Under.rel, Top.rel))
Emit == done => PrintT("CASE " \o ToJson([tabs |-> tabs, prog |-> prog, n |-> Top.n, rel |-> Top.rel]))
=============================================================================
