---------------------------- MODULE HandlersTrace ----------------------------
(* Recorded calls of handlers, and where plans and requests went, judged by Handlers. *)
EXTENDS Handlers, Json, IOUtils, SequencesExt
VARIABLE i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Put(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
E == [x \in {} |-> 0]
(* cur: next handler of a dispatch; out: who decided last; tc: its task count; at: stage -> task -> worker; fail: messages due *)
Fresh == [cur |-> E, out |-> E, tc |-> E, at |-> E, fail |-> {}, anyfail |-> FALSE, rw |-> E, ran |-> {}]
Key(e) == <<e.kind, e.on, IF e.kind = "rewrite" THEN e.t ELSE -1>>
Chain(tr, kind, on) == [h \in DOMAIN tr[kind] |-> tr[kind][h][on].k]
Wrappers(tr, on, n) == SelectSeq([j \in 1..n |-> IF tr.rewrite[j][on].k = "wrap" THEN j ELSE 0], LAMBDA x : x # 0)
OfStage(tr, a, on) == Get(a.out, <<"route", on, -1>>, -1)
Where(tr, a, e) ==  \* is this where task e.t of stage e.on belongs
  LET o == OfStage(tr, a, e.on)
      seen == Get(Get(a.at, e.on, E), e.t, -1) IN
  IF o = -1 THEN "" ELSE IF o > 0 /\ tr.route[o][e.on].k = "urls" /\ e.w # tr.route[o][e.on].w[(e.t % Len(tr.route[o][e.on].w)) + 1] THEN "route: a task is not at the worker chosen for it"
  ELSE IF seen >= 0 /\ seen # e.w THEN "route: a task is looked for at another worker" ELSE ""
Judge(tr, a, e) ==
  CASE e.k = "h" ->
         LET want == Get(a.cur, Key(e), 1) IN
         IF e.h # want THEN "order: " \o e.kind \o " handler " \o ToString(e.h) \o " is called instead of " \o ToString(want)
         ELSE IF e.kind = "rewrite" /\ e.chain # <<>> /\ e.chain # Wrappers(tr, e.on, e.h - 1) THEN "rewrite: a handler does not get what the one before it returned"
         ELSE ""
    [] e.k \in {"plan", "exec"} -> IF Get(a.cur, <<"route", e.on, -1>>, 1) # 1 THEN "order: tasks are sent before their routing is decided"
         ELSE IF e.k = "plan" /\ e.tc # Get(a.tc, <<"route", e.on>>, e.tc) THEN "route: other number of tasks than routed" ELSE IF e.k = "plan" /\ e.w # e.target THEN "route: a plan is sent to another worker than it names" ELSE Where(tr, a, e)
    [] e.k = "run" -> IF e.w < 0 THEN "" ELSE IF Where(tr, a, e) # "" THEN Where(tr, a, e)
         ELSE IF OfStage(tr, a, e.on) # -1 /\ Len(tr.rewrite) > 0 /\ <<e.on, e.t>> \notin a.ran THEN "rewrite: a task runs without it" ELSE ""
    [] e.k = "su" -> IF Get(a.out, <<"scale", e.on, -1>>, 0) # e.h THEN "scale: the variants of another handler" ELSE IF e.i # e.t THEN "scale: the variant of another task"
         ELSE IF e.tc # Get(a.tc, <<"scale", e.on>>, -1) THEN "scale: another number of tasks" ELSE ""
    [] e.k = "leafrun" -> IF e.w < 0 THEN (IF e.chain = <<>> THEN "" ELSE "rewrite: outside of a worker")
         ELSE IF \E s \in {tr.labels[j] : j \in DOMAIN tr.labels} : e.chain = Wrappers(tr, s, Len(tr.rewrite)) THEN "" ELSE "rewrite: not all handlers, in order, were applied"
    [] OTHER -> ""
Ends(tr, a, e) ==  \* of a run
  LET routed == {k[2] : k \in {x \in DOMAIN a.out : x[1] = "route"}}
      full(s) == DOMAIN Get(a.at, s, E) = 0..(a.tc[<<"route", s>>] - 1)
      below(s) == {a.at[b][0] : b \in {x \in routed : x \in {tr.below[s][j] : j \in DOMAIN tr.below[s]} /\ a.tc[<<"route", x>>] = 1 /\ full(x)}}
      nobelow(s) == \E b \in {tr.below[s][j] : j \in DOMAIN tr.below[s]} : b \in routed /\ ~full(b)
      wrong == {s \in routed : a.out[<<"route", s, -1>>] = 0 /\ full(s) /\ ~nobelow(s) /\ ~Default(a.at[s], 0..(tr.workers - 1), tr.loc, below(s))}
      leafs == {k[2] : k \in {x \in DOMAIN a.out : x[1] = "scale"}}
      scaled(l) == l \in leafs /\ a.out[<<"scale", l, -1>>] > 0
      \* (the variants of a script split it, those of a scan copy it; unscaled it is the other way round)
      copies(l) == IF tr.home[l] \notin routed \/ (l = "f") # scaled(l) THEN 1 ELSE a.tc[<<"route", tr.home[l]>>]
      des(l) == Get(a.out, <<"desired", l, -1>>, 0)
      ask(l) == tr.desired[des(l)][l]
      miscount == {l \in DOMAIN tr.home : ~tr.dyn /\ ~tr.user /\ des(l) > 0 /\ tr.home[l] \in routed /\ ask(l).k \in {"desired", "maximum"}
                     /\ a.tc[<<"route", tr.home[l]>>] # (IF ask(l).n < tr.workers THEN ask(l).n ELSE tr.workers)} IN
  IF a.anyfail THEN IF e.err = "" THEN "failure: the query goes on" ELSE IF a.fail # {} /\ "" \notin a.fail /\ {e.has[j] : j \in DOMAIN e.has} \cap a.fail = {} THEN "failure: without its message: " \o e.err ELSE IF e.err = "hangs" THEN "failure: the query hangs" ELSE ""
  ELSE IF e.err # "" THEN "answer: " \o e.err
  ELSE IF \E k \in DOMAIN a.cur : a.cur[k] # 1 THEN "order: not every handler was asked"
  ELSE IF wrong # {} THEN "default: stage " \o (CHOOSE s \in wrong : TRUE) \o " is not spread as it should"
  ELSE IF miscount # {} THEN "desired: leaf " \o (CHOOSE l \in miscount : TRUE) \o " has another task count than was answered first"
  ELSE IF tr.rows >= 0 /\ e.rows # tr.rows * copies(tr.leaf) THEN "scale: the answer has " \o ToString(e.rows) \o " rows" ELSE ""
Step(tr, a, e) ==
  IF a.bad # "" THEN a
  ELSE LET b == IF e.k = "done" THEN Ends(tr, a.s, e) ELSE Judge(tr, a.s, e) IN
       IF b # "" THEN [a EXCEPT !.bad = b]
       ELSE [a EXCEPT !.n = @ + 1, !.s =
            CASE e.k = "done" -> Fresh
              [] e.k = "h" ->
                   LET k == Key(e)
                       ans == tr[e.kind][e.h][e.on]
                       last == e.h = Len(tr[e.kind])
                       over == IF e.kind = "rewrite" THEN ans.k \in Failures \/ last ELSE ans.k # "none" \/ last
                       s1 == [@ EXCEPT !.cur = Put(@, k, IF over THEN 1 ELSE e.h + 1)]
                       s2 == IF over THEN [s1 EXCEPT !.out = Put(@, k, IF e.kind = "rewrite" \/ ans.k # "none" THEN e.h ELSE 0), !.ran = IF e.kind = "rewrite" /\ ans.k \notin Failures THEN @ \cup {<<e.on, e.t>>} ELSE @] ELSE s1
                       s3 == IF over /\ e.kind \in {"route", "scale"} THEN [s2 EXCEPT !.tc = Put(@, <<e.kind, e.on>>, e.tc)] ELSE s2 IN
                   IF ans.k \in Failures THEN [s3 EXCEPT !.anyfail = TRUE, !.fail = @ \cup (IF ans.k \in {"err", "panic"} THEN {ans.msg} ELSE {""})] ELSE s3
              [] e.k \in {"plan", "exec", "run"} -> IF e.w < 0 THEN @ ELSE
                   \* (a stage none of my handlers was asked about is the default's)
                   LET s1 == IF e.k = "plan" /\ Len(tr.route) = 0 THEN [@ EXCEPT !.out = Put(@, <<"route", e.on, -1>>, 0), !.tc = Put(@, <<"route", e.on>>, e.tc)] ELSE @ IN
                   [s1 EXCEPT !.at = Put(@, e.on, Put(Get(@, e.on, E), e.t, e.w))]
              [] OTHER -> @]
Verdict(tr) == LET a == FoldLeft(LAMBDA acc, e : Step(tr, acc, e), [s |-> Fresh, bad |-> "", n |-> 0], tr.ev) IN [w |-> a.bad, n |-> a.n]
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET v == Verdict(Traces[i]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, w |-> v.w, n |-> v.n]))
===============================================================================
