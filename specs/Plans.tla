--------------------------------- MODULE Plans ---------------------------------
(* A distributed plan and its execution, as planner and workers must agree on them.                           *)
(*   tr.cap: most tasks a stage may have;  tr.tree: the plan, of nodes                                         *)
(*     op, p (partitions), leaf (index or -1), decl "" | "d" | "m" with dn (what the node declared), v (slices *)
(*     prepared for a leaf, -1: none), stage, tasks (of an exchange: the stage below it), kids                  *)
(*   tr.dist: the plan is executed by the distributed engine; tr.same: it is the plan plain DataFusion has      *)
(*   tr.dyn: stages are sized while the query runs, on top of what they desire                                 *)
(*   tr.full: every partition of every leaf has to be executed; tr.exp: the rows                                *)
(*   events: plan stage task tc (a plan was sent) | leaf l ti tc of slice p (a leaf was executed: partition p   *)
(*     of slice `slice` of `of`, in the position ti of tc) | end rows | err                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Least(a, b) == IF a < b THEN a ELSE b
Exchange(x) == x.stage > 0
Cat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
RECURSIVE Exchanges(_), Maxima(_), Desires(_), SimpleStage(_), LeafAt(_, _, _), Nodes(_)
Exchanges(x) == (IF Exchange(x) THEN <<x>> ELSE <<>>) \o Cat([i \in DOMAIN x.kids |-> Exchanges(x.kids[i])])
\* what is declared in the stage of node x, not looking into the branches of isolated unions
Maxima(x) == (IF x.decl = "m" THEN {x.dn} ELSE {}) \cup
             (IF Exchange(x) \/ x.op = "ChildrenIsolatorUnionExec" THEN {} ELSE UNION {Maxima(x.kids[i]) : i \in DOMAIN x.kids})
Desires(x) == (IF x.decl = "d" THEN {x.dn} ELSE {}) \cup UNION {Desires(x.kids[i]) : i \in DOMAIN x.kids}
\* a stage of one line of operators over one leaf, or of joined lines, that can run in any number of tasks
SimpleStage(x) == /\ x.op \in {"ScriptExec", "DistributedLeafExec", "TapExec", "RepartitionExec", "BroadcastExec", "UnionExec"}
                  /\ x.decl # "m" /\ (x.leaf >= 0 => x.decl = "d")
                  /\ \A i \in DOMAIN x.kids : SimpleStage(x.kids[i])
Nodes(x) == <<x>> \o Cat([i \in DOMAIN x.kids |-> Nodes(x.kids[i])])
Leaves(x) == SelectSeq(Nodes(x), LAMBDA n : n.leaf >= 0)
\* the limits leaf l has to obey: everything declared above it in its stage (also through unions), and its stage's tasks
LeafAt(x, l, lim) ==
  LET here == IF Exchange(x) THEN {x.tasks} ELSE lim \cup (IF x.decl = "m" THEN {x.dn} ELSE {})
  IN IF x.leaf = l THEN {here} ELSE UNION {LeafAt(x.kids[i], l, here) : i \in DOMAIN x.kids}
Limits(tr, l) == UNION LeafAt(tr.tree, l, {1})

JPlan(tr) ==
  LET bs == Exchanges(tr.tree) nums == [i \in DOMAIN bs |-> bs[i].stage] IN
  IF \E i, j \in DOMAIN bs : i # j /\ nums[i] = nums[j] THEN "plan: two stages share an identifier"
  ELSE IF \E i \in DOMAIN bs : bs[i].tasks < 1 THEN "plan: a stage without tasks"
  ELSE IF \E i \in DOMAIN bs : bs[i].tasks > tr.cap THEN "plan: a stage has more tasks than allowed"
  ELSE IF \E i \in DOMAIN bs : \E m \in Maxima(bs[i].kids[1]) : bs[i].tasks > m THEN "plan: a stage has more tasks than one of its operators allows"
  ELSE IF ~tr.dyn /\ \E i \in DOMAIN bs : LET r == bs[i].kids[1] IN Exchanges(r) = <<>> /\ SimpleStage(r) /\ Desires(r) # {} /\ bs[i].tasks # Least(tr.cap, Max(Desires(r) \cup {1}))
       THEN "plan: the largest desire does not win"
  ELSE IF tr.dist # (bs # <<>>) THEN "plan: only plans with exchanges are distributed"
  ELSE IF bs = <<>> /\ ~tr.same THEN "plan: a plan without exchanges was changed"
  ELSE ""

Fresh == [plans |-> {}, lf |-> <<>>, tc |-> <<>>]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Stage(tr, s) == SelectSeq(Exchanges(tr.tree), LAMBDA b : b.stage = s)
Count(s) == FoldLeft(LAMBDA f, x : IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE f @@ (x :> 1), <<>>, s)
LeafNode(tr, l) == SelectSeq(Leaves(tr.tree), LAMBDA n : n.leaf = l)[1]

Judge(tr, s, e) ==
  CASE e.k = "plan" -> IF Len(Stage(tr, e.stage)) # 1 THEN "exec: a task of a stage that is not in the plan"
                       ELSE IF Stage(tr, e.stage)[1].tasks # e.tc THEN "exec: a task is told another number of tasks"
                       ELSE IF e.task >= e.tc THEN "exec: a task beyond the tasks of its stage"
                       ELSE IF <<e.stage, e.task>> \in s.plans THEN "exec: a task is set up twice" ELSE ""
    [] e.k = "leaf" -> IF e.ti >= e.tc THEN "slice: a slice beyond the slices of its branch"
                       ELSE IF At(s.tc, e.l, e.tc) # e.tc THEN "slice: slices of one leaf disagree on their number"
                       ELSE IF <<e.ti, e.p>> \in At(s.lf, e.l, {}) THEN "slice: a slice is executed twice"
                       ELSE IF e.of = 0 /\ e.tc # 1 THEN "leaf: the unsplit leaf runs in several tasks"
                       ELSE IF e.of > 0 /\ (e.of # e.tc \/ e.slice # e.ti) THEN "leaf: a task runs the slice of another one"
                       ELSE IF \E m \in Limits(tr, e.l) : e.tc > m THEN "slice: a leaf is cut in more slices than allowed"
                       ELSE IF e.p >= LeafNode(tr, e.l).p THEN "leaf: a partition the leaf does not have" ELSE ""
    [] e.k = "end" -> IF Count(e.rows) # Count(tr.exp) THEN "rows: wrong rows"
                      ELSE IF \E i \in DOMAIN Exchanges(tr.tree) : LET b == Exchanges(tr.tree)[i] IN \E t \in 0..(b.tasks - 1) : <<b.stage, t>> \notin s.plans
                           THEN "exec: a task was never set up"
                      ELSE IF tr.full /\ \E i \in DOMAIN Leaves(tr.tree) : LET n == Leaves(tr.tree)[i] IN
                               At(s.lf, n.leaf, {}) # (0..(At(s.tc, n.leaf, 1) - 1)) \X (0..(n.p - 1))
                           THEN "slice: not every slice was executed" ELSE ""
    [] e.k = "err" -> "rows: an error although nothing failed"
    [] OTHER -> "harness: unknown event"
After(s, e) ==
  CASE e.k = "plan" -> [s EXCEPT !.plans = @ \cup {<<e.stage, e.task>>}]
    [] e.k = "leaf" -> [s EXCEPT !.lf = (e.l :> (At(@, e.l, {}) \cup {<<e.ti, e.p>>})) @@ @, !.tc = (e.l :> e.tc) @@ @]
    [] OTHER -> s
================================================================================
