#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script only so that long lines stay readable."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))

p("C01","Distributed execution returns exactly the single-node answer",
 "For every query and every input data, running it distributed over any number of workers returns exactly the same multiset of rows as running it on one node (and rows in the required order where the query asks for an order). This holds for every combination of worker count, partition count, per-stage task limits, data placement and optional planning modes (broadcast joins, isolated unions, partial aggregation below shuffles, dynamic planning). A query that has a single-node answer never loses, repeats, invents or mixes up rows, and a distributed plan is never refused merely because of how it was cut into stages.",
 ["inputs","configurations","programs"],
 "all queries built from scans, filters, projections, all join types, grouping, distinct, union, ordering and limits; all data incl. NULLs, empty and skewed partitions; all cluster sizes, task counts, planner options",
 "The repository samples a few TPC-H/TPC-DS/ClickBench queries (whose data is not even present here) and a handful of hand-written plans under one or two configurations; plan shapes x configurations x data placement is a product no sample covers.",
 ["src/distributed_planner/distributed_query_planner.rs","src/distributed_planner/inject_network_boundaries.rs","src/distributed_planner/prepare_network_boundaries.rs","src/coordinator/distributed.rs","src/execution_plans/network_shuffle.rs","src/execution_plans/network_broadcast.rs","src/execution_plans/network_coalesce.rs","src/codec/distributed_codec.rs"],
 [("stage cutting and boundary injection","distributed_planner/inject_network_boundaries.rs"),("exchange operators","execution_plans/network_*.rs"),("stage execution on workers","worker/impl_execute_task.rs")],
 obs=["rows returned by the query's stream"])

p("C02","Every exchange delivers each row exactly once to the right place",
 "Between two consecutive stages, every row any producer task emits reaches the consumer stage: with a hash exchange it is read by exactly one consumer partition across all consumer tasks and all rows with equal keys are read by that same one; with a gather exchange every producer partition is read exactly once, in its own order, by exactly one consumer task, and surplus consumer partitions are empty; with a broadcast exchange every consumer task reads every row exactly once. No producer task or partition is skipped or read twice, whatever the numbers of producer tasks, consumer tasks and partitions, and whether a producer is local or remote.",
 ["inputs","configurations"],
 "all producer/consumer task counts, partition counts (divisible or not, fewer producers than consumers, single tasks), and all row placements",
 "Unit tests fix two or three (tasks, partitions) combinations; the index arithmetic must be right for all of them and all of producer head, consumer range and routing must agree.",
 ["src/execution_plans/network_shuffle.rs","src/execution_plans/network_coalesce.rs","src/execution_plans/network_broadcast.rs","src/worker/worker_connection_pool.rs","src/distributed_planner/prepare_network_boundaries.rs","src/stage.rs"],
 [("consumer partition range of a shuffle","execution_plans/network_shuffle.rs"),("task groups of a gather","execution_plans/network_coalesce.rs"),("virtual partitions of a broadcast","execution_plans/network_broadcast.rs"),("producer head scaling","distributed_planner/prepare_network_boundaries.rs")],
 obs=["rows seen by an operator placed directly above the exchange, per (task, partition)"])

p("C03","A broadcast input is run once and fully replayed to every reader",
 "When one input partition is broadcast to N readers, each reader that reads to the end receives the whole input, in the input's order, exactly once, no matter when it starts, how fast it reads, or whether other readers are slow, stop early or never start. The input itself is executed at most once per partition; an input error (or the end of input) reaches every reader after the same prefix of batches; asking for more readers than declared is an error rather than wrong data.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of input progress, reader starts, reads, reader cancellations and input failures",
 "Unit tests read with one interleaving at a time; late joiners, cancellations and errors interleave in exponentially many ways.",
 ["src/execution_plans/broadcast.rs"],
 [("shared queue with replay","execution_plans/broadcast.rs")],
 state=[("queue","batches read so far, shared by all readers","execution_plans/broadcast.rs"),("waiters","readers waiting for the next batch","execution_plans/broadcast.rs")],
 obs=["stream of each (virtual) partition of the operator","how often the input is executed and polled"])

p("C04","Isolated unions run every branch slice exactly once",
 "When a union distributes its branches over the tasks of a stage, every branch is executed exactly once as a whole: each branch gets at least one task, a branch given k tasks is cut in slices 0..k-1 of k and each slice runs in exactly one task and one output position. No branch's declared maximum task count is exceeded, the number of tasks of the stage is respected, and extra output partitions yield no rows. The union therefore returns every row of every branch once, nested unions included.",
 ["inputs","configurations"],
 "all numbers of branches, per-branch desired/maximum task counts, partition counts and stage task counts, including more branches than tasks and nested unions",
 "The distribution is integer apportionment with caps; unit tests list about twenty vectors out of an unbounded set.",
 ["src/execution_plans/children_isolator_union.rs","src/distributed_planner/insert_children_isolator_union.rs","src/distributed_planner/inject_network_boundaries.rs","src/common/recursion.rs"],
 [("largest-remainder split of tasks to children","execution_plans/children_isolator_union.rs"),("per-task child context","execution_plans/children_isolator_union.rs")],
 obs=["(task index, task count, partition) with which each leaf under the union is executed","rows returned"])

p("C05","Splitting a leaf across tasks covers its data exactly once",
 "When a table scan or user leaf is spread over the tasks of a stage, each unit of its data (file, byte range, user-provided slice) is read by exactly one task and one partition, for every task count. A task runs only the slice meant for its own index; with a single task the original unsplit leaf is run. Splitting never changes how many output partitions a task exposes, and unequal splits are rejected rather than silently mis-run.",
 ["inputs","configurations"],
 "all numbers of files, file sizes, partitions, tasks, and user-provided splits, including fewer files than slots and empty tables",
 "Tests use a handful of file counts; rounding and dealing must be right for all of them, and task specialisation happens separately on the coordinator and on the worker.",
 ["src/events/defaults/file_scan_config.rs","src/execution_plans/distributed_leaf.rs","src/events/scale_up_leaf_node.rs","src/coordinator/query_coordinator.rs"],
 [("file group dealing","events/defaults/file_scan_config.rs"),("per-task leaf variants","execution_plans/distributed_leaf.rs"),("task specialisation before shipping","coordinator/query_coordinator.rs")],
 obs=["slices executed by each task","rows returned by a scan"])

p("C06","Stages and task counts obey every declared limit and fit together",
 "In every distributed plan the producing side of each exchange states how many tasks it has, that number is at least one, never exceeds the configured maximum (or the number of workers), and never exceeds a maximum declared by any leaf or operator in that stage; where only desires are declared the largest wins. Stages have distinct identifiers within a query, all exchanges of one stage agree on its task count, and the partitions a producer offers are exactly those its consumers ask for. A plan that needs no exchange is left untouched and runs locally.",
 ["inputs","configurations","programs"],
 "all plan trees, all leaf declarations (desired / maximum), all configured limits and scale factors",
 "Snapshot tests pin some plans under one configuration; the merge of declarations over arbitrary trees and the resulting partition numbers are only exercised on them.",
 ["src/distributed_planner/inject_network_boundaries.rs","src/distributed_planner/prepare_network_boundaries.rs","src/events/desired_task_count.rs","src/stage.rs","src/distributed_planner/distributed_config.rs"],
 [("task count annotation and merge","distributed_planner/inject_network_boundaries.rs"),("stage numbering","distributed_planner/prepare_network_boundaries.rs"),("limits","events/desired_task_count.rs")],
 obs=["the physical plan produced by planning","plans and task counts sent to workers"])

p("C07","Joins and row limits keep their meaning when stages are cut",
 "A join whose build side may produce rows of its own (unmatched, semi, anti, mark or null-sensitive output) is never executed against a replicated or partially visible build side: such a row is emitted at most once and only when no match exists in the entire other side. A row limit or offset is applied to the whole result it stands over, not per task: never fewer rows than available up to the limit, never more than the limit, and the rows of an ordered limit are the right ones; a limited subquery used as a join input is the same set of rows for every task.",
 ["programs","inputs","configurations"],
 "all join types, equi and non-equi, either side small, large or empty; limits and offsets above or below exchanges; broadcast enabled or not; all task counts",
 "Each unsafe combination (join type x distribution x task count x data) shows only when a build row's match lives in another task; the tests contain a few of them.",
 ["src/distributed_planner/normalize_collect_joins.rs","src/distributed_planner/insert_broadcast.rs","src/distributed_planner/push_fetch_into_network_coalesce.rs","src/distributed_planner/inject_network_boundaries.rs","src/execution_plans/network_coalesce.rs"],
 [("collect-join normalisation","distributed_planner/normalize_collect_joins.rs"),("broadcast eligibility","distributed_planner/insert_broadcast.rs"),("fetch pushdown","distributed_planner/push_fetch_into_network_coalesce.rs")],
 obs=["rows returned","plan shape"])

p("C08","A worker task is set up once, run by many readers, then forgotten",
 "For a given task, execution requests may arrive before or after its plan: early ones wait and then run exactly that plan, and fail within a bounded time if it never comes. The plan is accepted at most once (a second one is refused and does not disturb the first), a set-up failure is reported to the coordinator and to every waiting reader, and different tasks, stages and queries never see each other's plans. When the coordinator's side of the task ends (normally, with an error, or by disappearing), the worker drops the task's state.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of plan arrival, execution requests, set-up failures, stream ends and time-outs for several tasks on one worker",
 "Tests exercise plan-then-execute and one wait; the race of early, late, duplicate and failing requests is not sampled.",
 ["src/worker/worker_service.rs","src/worker/impl_coordinator_channel.rs","src/worker/impl_execute_task.rs","src/worker/single_write_multi_read.rs","src/worker/task_data.rs"],
 [("task registry","worker/worker_service.rs"),("single write, many reads cell","worker/single_write_multi_read.rs"),("release at end of coordinator stream","worker/impl_coordinator_channel.rs")],
 state=[("task entry","plan or set-up error of a task key","worker/worker_service.rs")],
 obs=["results of plan submission and execution requests","number of tasks a worker holds"])

p("C09","Every executed task reports its metrics once and they add up",
 "When a query has run to completion and metrics collection is on, exactly one metrics report per executed task reaches the coordinator, is attributed to that very task, and lines up with that task's operators: each operator's number in the collected plan equals what its instances really did, per task or summed over tasks. With collection off nothing is reported. Asking for metrics after a completed query returns rather than waiting for ever.",
 ["schedules","configurations","programs"],
 "all plan shapes (isolated unions and split leaves included), task counts, routings, end orders of tasks, and both metric formats",
 "Tests compare totals for a few queries; position-wise matching of operators must hold for every shape and each task's report travels asynchronously.",
 ["src/metrics/task_metrics_rewriter.rs","src/metrics/task_metrics_collector.rs","src/coordinator/metrics_store.rs","src/worker/impl_coordinator_channel.rs","src/coordinator/query_coordinator.rs","src/common/recursion.rs"],
 [("pre-order metric reports","worker/impl_coordinator_channel.rs"),("metrics store and wait","coordinator/metrics_store.rs"),("plan rewriting","metrics/task_metrics_rewriter.rs")],
 obs=["metrics of the rewritten plan, per operator and task","messages from workers to the coordinator"])

p("C10","Each work unit reaches exactly one partition of one task, in order",
 "Every work unit a feed produces for a given feed partition is delivered exactly once, in production order, to the one task and partition that owns that feed partition, and to no other leaf; leaves with several feeds or several leaves in one stage never mix. When the feed of a partition ends the reader sees the end after all its units; when a feed fails the query fails; readers that stop early never block the delivery to others.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all numbers of leaves, tasks, partitions, units, all production and consumption interleavings, feed failures and early stops",
 "Tests run feeds that are ready immediately and are read to the end; chunking, routing by (leaf, partition) and end-of-stream race with each other in ways not sampled.",
 ["src/work_unit_feed/work_unit_feed.rs","src/work_unit_feed/remote_work_unit_feed.rs","src/work_unit_feed/work_unit_feed_registry.rs","src/coordinator/query_coordinator.rs","src/worker/impl_coordinator_channel.rs"],
 [("feed slicing per task","coordinator/query_coordinator.rs"),("per (leaf, partition) channels","work_unit_feed/remote_work_unit_feed.rs"),("end of units","worker/impl_coordinator_channel.rs")],
 obs=["units received by each leaf instance (task, partition)","query outcome"])

p("C11","Remote streams keep order, bound memory and never wedge",
 "The batches of one remote partition arrive complete, in order and only at that partition's reader, whatever other partitions multiplexed on the same connection do. A fast producer is held back once the consumer's configured buffer is full, reading frees room again, and a slow, unread or abandoned partition never blocks for ever a sibling that is being read; once every reader of a connection is gone the remote work is cancelled. An error on the connection reaches every unfinished reader.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings of per-partition production, reading, dropping and failure, all buffer budgets and batch sizes",
 "Tests drain all partitions concurrently; blocked, dropped or skewed readers and tiny budgets are exactly where a lost wake-up or leaked reservation shows.",
 ["src/protocol/grpc/worker_client.rs","src/protocol/grpc/worker_service.rs","src/protocol/grpc/spawn_select_all.rs","src/protocol/grpc/on_drop_stream.rs","src/protocol/in_process/worker_client.rs"],
 [("demultiplexing with byte budget","protocol/grpc/worker_client.rs"),("multiplexing of partition streams","protocol/grpc/spawn_select_all.rs"),("cancellation on drop","protocol/grpc/on_drop_stream.rs")],
 state=[("buffered bytes","bytes received and not yet read","protocol/grpc/worker_client.rs")],
 obs=["per-partition streams of a worker client","batches pulled from the scripted producer"])

p("C12","Each producer partition is requested and executed at most once",
 "Within one query, a consumer task sends each producer task it reads at most one execution request covering exactly the partitions it owns, each partition of a task is executed by at most one reader, and all requests of a stage carry the same shape of producer output. A consumer that finds the producer on its own worker reads it in process with the same result; every task that was given a plan is one a consumer may read, and no consumer asks for a task or partition that does not exist.",
 ["schedules","configurations"],
 "all task and partition counts, exchange kinds, worker assignments (co-located or remote) and orders in which consumer partitions are polled",
 "Tests check answers, not the request pattern; double or missing requests surface as rare duplicate or lost rows only under particular polling orders.",
 ["src/worker/worker_connection_pool.rs","src/execution_plans/network_shuffle.rs","src/execution_plans/network_coalesce.rs","src/execution_plans/network_broadcast.rs","src/worker/impl_execute_task.rs"],
 [("one connection per input task","worker/worker_connection_pool.rs"),("local short-circuit","worker/worker_connection_pool.rs")],
 obs=["requests observed on the worker channel and at the worker","executions of leaf partitions"])

p("C13","Routing and user handlers are applied as documented",
 "Each task of a stage is sent to the worker chosen for its index and consumers look for it there: a user routing handler's answer is used verbatim and in order, a wrong number of workers is an error, and the default spreads the tasks of a stage evenly over the available workers. User handlers take precedence over built-in ones in registration order with the first answer winning, and a handler that declines leaves the decision to the next one. Worker-side plan rewrites are applied all, in order, to every task's plan before it runs, and a failing handler fails the query.",
 ["inputs","configurations"],
 "all numbers of workers, tasks and handlers, all answer/decline/fail patterns, single- and multi-task stages",
 "Tests register one handler at a time and small worker sets.",
 ["src/events/common.rs","src/events/route_tasks.rs","src/events/defaults/routing.rs","src/events/worker_plan_rewrite.rs","src/events/desired_task_count.rs","src/events/scale_up_leaf_node.rs","src/coordinator/query_coordinator.rs"],
 [("handler chains","events/common.rs"),("default routing","events/defaults/routing.rs")],
 obs=["worker to which each plan and execution request is sent","sequence of handler calls"])

p("C14","A failure anywhere fails the query with its cause",
 "If any task, exchange, connection, plan hand-over, user handler or work-unit feed that the query still needs fails at any point, the query ends with an error that carries the original cause; it never ends successfully with part of the rows and never hangs. A query in which nothing failed does not report an error.",
 ["fault_sequences","crash_points","schedules"],
 "every single fault at every call and at every message position of every stream, on any worker, before or after rows were produced, local or remote",
 "Tests inject one or two faults in leaf scans; faults between protocol steps and mid-stream on a multiplexed connection are not covered.",
 ["src/coordinator/distributed.rs","src/coordinator/query_coordinator.rs","src/worker/worker_connection_pool.rs","src/protocol/grpc/worker_client.rs","src/protocol/grpc/errors/mod.rs","src/worker/impl_execute_task.rs"],
 [("background task draining","coordinator/query_coordinator.rs"),("stream error forwarding","protocol/grpc/worker_client.rs")],
 obs=["final outcome of the query stream and its message"])

p("C15","However a query ends, its remote work and state are released",
 "After a query finished, failed, hit its limit early or was dropped by its client at any moment, every worker stops executing its tasks and forgets them within bounded time: no task entry, running leaf or open coordinator stream survives. The end of one query never disturbs another one running on the same workers, and the same prepared query can be executed again.",
 ["crash_points","schedules","histories"],
 "all moments at which the client stops or a fault occurs, all stage shapes and worker assignments, repeated and concurrent queries",
 "Tests check one cancellation and successful completions; the moment of the drop relative to hand-over, execution and metrics is not sampled.",
 ["src/coordinator/distributed.rs","src/coordinator/query_coordinator.rs","src/worker/impl_coordinator_channel.rs","src/protocol/grpc/worker_client.rs","src/protocol/grpc/on_drop_stream.rs","src/execution_plans/broadcast.rs"],
 [("end-of-query notification","coordinator/query_coordinator.rs"),("task entry removal","worker/impl_coordinator_channel.rs")],
 obs=["tasks held by workers","live scripted leaf streams","time to completion"])

p("C16","Dynamic planning loses no rows and sizes stages within limits",
 "With dynamic planning, data pulled while a stage is being sampled is still delivered: every row of every partition once, in order, errors included. Each sampled partition reports its load exactly once, whether it fills the sample, ends early or fails; and the number of tasks chosen for the next stage is at least one and at most the configured maximum (and any maximum declared by its leaves). The answer equals that of static planning.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all production interleavings and sizes around the sampling threshold, all limits, empty and failing partitions, several chained stages",
 "Tests use small in-memory tables where the sample is either everything or one batch.",
 ["src/execution_plans/sampler.rs","src/coordinator/prepare_dynamic_plan.rs","src/worker/impl_coordinator_channel.rs","src/coordinator/query_coordinator.rs"],
 [("sampling buffer and hand-over","execution_plans/sampler.rs"),("task count from collected load","coordinator/prepare_dynamic_plan.rs")],
 obs=["load messages per task","rows returned","task counts of plans handed to workers"])

p("C17","Session settings and headers reach every worker task unchanged",
 "Every task of a query, however deep its stage and whichever worker runs it, sees the same distributed options, registered configuration extensions and pass-through headers as the coordinating session had when the query was issued. Settings left at their defaults are defaults there too, values survive any number of hops, one query's settings never leak into another, and reserved header names are refused.",
 ["inputs","configurations"],
 "all option values (incl. empty and unusual strings), all subsets of options set, all stage depths, local and remote hand-over",
 "Tests propagate one or two options through a single hop.",
 ["src/config_extension_ext.rs","src/passthrough_headers.rs","src/distributed_ext.rs","src/coordinator/query_coordinator.rs","src/worker/impl_coordinator_channel.rs","src/protocol/grpc/worker_client.rs"],
 [("option to header encoding","config_extension_ext.rs"),("header forwarding","coordinator/query_coordinator.rs")],
 obs=["session configuration seen by leaf execution on workers","headers seen on worker channels"])

p("C18","Errors reach the client as they were raised",
 "An error raised by any task, or by a work unit feed, is seen by every task on its way and by the client with the same kind and content, however it is nested and however many boundaries it crosses. Kinds that cannot be built from a text (join errors, invalid paths, foreign errors, unknown stores) keep their text, and an error too long for the headers of a response arrives as an execution error with the beginning of its text; never is it replaced by a transport or decoding error.",
 ["inputs","configurations"],
 "all error kinds, nestings (up to the decoder's depth limit), texts of all sizes, numbers of boundaries, transports",
 "Round-trip unit tests list one small instance per variant and do not send it: sizes, nestings, repeated hops and kinds that were left out are not sampled.",
 ["src/protocol/grpc/errors/mod.rs","src/protocol/grpc/errors/datafusion_error.rs","src/protocol/grpc/errors/arrow_error.rs"],
 [("protobuf conversions","protocol/grpc/errors/*.rs"),("status encoding and size","protocol/grpc/errors/mod.rs")],
 obs=["errors above every boundary","the client's error"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
