------------------------------- MODULE Session -------------------------------
(* The settings and headers of sessions and what the tasks of their queries see of them.                      *)
(* A session has options (those of this crate, and those of registered extensions), and pass-through headers. *)
(* A query takes a snapshot of its session when it is issued; every task it has, at any depth, on any worker, *)
(* sees that snapshot and nothing else, whatever happens to the session (or to other sessions) meanwhile.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
D(k, c, d) == [k |-> "distributed." \o k, ext |-> "distributed", cls |-> c, def |-> d]
O(x, k, c, d) == [k |-> x \o "." \o k, ext |-> x, cls |-> c, def |-> d]
None == "-"
Absent == "~"
Tab == << D("file_scan_config_bytes_per_partition", "usize", "16777216"), D("cardinality_task_count_factor", "f64", "1.0"),
          D("children_isolator_unions", "bool", "true"), D("collect_metrics", "bool", "true"), D("broadcast_joins", "bool", "true"),
          D("compression", "comp", "lz4"), D("shuffle_batch_size", "batch", "0"), D("max_tasks_per_stage", "tasks", "0"),
          D("partial_reduce", "bool", "false"), D("worker_connection_buffer_budget_bytes", "budget", "67108864"),
          D("dynamic_bytes_per_partition", "budget", "16777216"),
          O("ea", "flag", "bool", "false"), O("ea", "n", "usize", "7"), O("ea", "x", "f64", "0.5"), O("ea", "s", "text", "def"),
          O("ea", "o", "text", None), O("ea", "on", "usize", None),
          O("retry", "retry.max", "text", "1"), O("retry", "max", "text", "2"), O("retry", "retry.retry", "text", "3"), O("retry", "gap", "text", None),
          O("Mixed", "TimeOut", "text", "10"), O("Mixed", "low", "text", "20"),
          O("onlyc", "k", "text", "c"), O("onlyw", "k", "text", "w"), O("plain", "k", "text", "p") >>
Keys == 1..Len(Tab)
(* Extensions a session may have; "onlyw" is only known to the workers, "onlyc" only to the sessions; "plain" is registered without asking for propagation *)
Exts == {"ea", "retry", "Mixed", "onlyc", "plain"}
Workers == {"distributed", "ea", "retry", "Mixed", "onlyw", "plain"}
Ships(x) == x # "plain"

Prefix == "x-datafusion-distributed-config-"
Reserved(n) == Len(n) >= Len(Prefix) /\ SubSeq(n, 1, Len(Prefix)) = Prefix

(* the distributed options a session starts with are those it is made from (init, by key) *)
New(exts, init) == [set |-> [i \in Keys |-> IF Tab[i].ext = "distributed" THEN init[i] ELSE IF Tab[i].ext \in exts THEN Tab[i].def ELSE Absent], hdr |-> <<>>]

(* An operation on a session: whether it is accepted, and the session afterwards. *)
Accepted(s, op) ==
  CASE op.do \in {"set", "api"} -> s.set[op.i] # Absent /\ op.valid
    [] op.do = "headers" -> \A j \in 1..Len(op.h) : ~Reserved(op.h[j][1])
    [] OTHER -> TRUE
After(s, op) ==
  IF ~Accepted(s, op) THEN s
  ELSE CASE op.do \in {"set", "api"} -> [s EXCEPT !.set[op.i] = op.v]
         [] op.do = "headers" -> [s EXCEPT !.hdr = op.h]
         [] op.do = "reg" -> [s EXCEPT !.set = [i \in Keys |-> IF Tab[i].ext = op.ext THEN Tab[i].def ELSE @[i]]]
         [] OTHER -> s

(* What a task on a worker sees of the snapshot of its query. *)
Seen(snap, i) == IF Tab[i].ext \notin Workers THEN Absent
                 ELSE IF snap.set[i] # Absent /\ Ships(Tab[i].ext) THEN snap.set[i] ELSE Tab[i].def
(* A header cannot hold control characters: with such a value a query may be refused, but never runs without it *)
Unsendable(snap, dirty) == \E i \in Keys : Ships(Tab[i].ext) /\ snap.set[i] \in dirty
(* ... and the size of the batches it makes: the one for exchanges where given, DataFusion's own otherwise *)
Batch(snap) == IF snap.set[7] = "0" THEN "8192" ELSE snap.set[7]
==============================================================================
