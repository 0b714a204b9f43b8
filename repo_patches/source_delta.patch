From ba9e3b6149ce52a6cc8150c9a36e6a7b46efc259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 01/40] fix: give every task of the coordinator's local worker
 its own copy of the plan

---
 src/protocol/in_process/worker_client.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/protocol/in_process/worker_client.rs b/src/protocol/in_process/worker_client.rs
index 81a4ccc..34de15a 100644
--- a/src/protocol/in_process/worker_client.rs
+++ b/src/protocol/in_process/worker_client.rs
@@ -1,6 +1,6 @@
 use crate::{
     CoordinatorToWorkerMsg, ExecuteTaskRequest, GetWorkerInfoRequest, GetWorkerInfoResponse,
-    SetPlanRequest, Worker, WorkerChannel, WorkerToCoordinatorMsg,
+    MaybeEncoded, SetPlanRequest, Worker, WorkerChannel, WorkerToCoordinatorMsg,
 };
 use async_trait::async_trait;
 use datafusion::arrow::array::RecordBatch;
@@ -19,7 +19,7 @@ pub(crate) struct InProcessWorkerClient {
 
 impl InProcessWorkerClient {
     /// Builds a new [InProcessWorkerClient] that will proxy request to the provided [Worker],
-    /// avoiding any serde on the inputs or outputs.
+    /// avoiding any serde on the data flowing between tasks.
     pub(crate) fn new(local_worker: Worker) -> Self {
         Self { local_worker }
     }
@@ -30,11 +30,17 @@ impl WorkerChannel for InProcessWorkerClient {
     async fn coordinator_channel(
         &mut self,
         headers: HeaderMap,
-        set_plan_request: SetPlanRequest,
+        mut set_plan_request: SetPlanRequest,
         c2w_stream: BoxStream<'static, CoordinatorToWorkerMsg>,
         _metrics: ExecutionPlanMetricsSet,
-        _task_ctx: &Arc<TaskContext>,
+        task_ctx: &Arc<TaskContext>,
     ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
+        // The tasks of a stage share most of their plan nodes in the coordinator, and some nodes
+        // carry execution state (e.g. connections to input stages, join build sides, dynamic
+        // filters). If several of those tasks run in this same worker, each one needs its own copy
+        // of the plan, just as if it was received over the wire.
+        let encoded = set_plan_request.plan.encode(task_ctx)?;
+        set_plan_request.plan = MaybeEncoded::Encoded(encoded);
         self.local_worker
             .coordinator_channel(headers, set_plan_request, c2w_stream.map(Ok).boxed())
             .await
-- 
2.43.0


From a821d300fa6897ce3cf13d691b5431577ead5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 02/40] fix: run in a single task the stages whose nodes rely
 on single-partition inputs

---
 .../inject_network_boundaries.rs              | 53 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..dc24f49 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -23,7 +23,8 @@ use datafusion::physical_plan::joins::{
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
-    ChildrenPropertiesMode, ExecutionPlan, PlanProperties, ReplaceChildrenOptions,
+    ChildrenPropertiesMode, Distribution, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
+    ReplaceChildrenOptions,
 };
 use datafusion::prelude::SessionConfig;
 use std::any::TypeId;
@@ -317,6 +318,12 @@ async fn _inject_network_boundaries(
         processed_children,
         ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute),
     )?;
+    // Some nodes rely on seeing all their input rows in one place, and the head stage is always
+    // executed by the coordinator as a single task.
+    let task_count = match parent.is_none() || requires_single_task(&plan) {
+        true => task_count.merge(Maximum(1)),
+        false => task_count,
+    };
     // Cap the reconciled task count by the configured max-per-stage budget.
     let task_count = task_count.limit(nb_ctx.max_tasks()?);
 
@@ -402,6 +409,50 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Returns true if `plan` is only correct when a single task executes it.
+///
+/// A single-partition input trivially satisfies any distribution required by its parent, so
+/// DataFusion does not place any repartition or coalesce there that could be turned into a network
+/// boundary. If such input was spread across several tasks, each of them would just see a slice of
+/// the rows its parent needs to see together (e.g. all the rows of a group), so the stage needs to
+/// run in a single task. The same applies to limits over a single partition.
+fn requires_single_task(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    if plan.fetch().is_some() && plan.output_partitioning().partition_count() == 1 {
+        return true;
+    }
+
+    // The build sides of these joins are collected by each task, and have their own rules for
+    // deciding whether they can run in several tasks or not.
+    let collects_left = plan.is::<CrossJoinExec>()
+        || plan.is::<NestedLoopJoinExec>()
+        || plan
+            .downcast_ref::<HashJoinExec>()
+            .is_some_and(|join| join.mode == PartitionMode::CollectLeft);
+
+    let children = plan.children();
+    let requirements = plan.input_distribution_requirements();
+    for (i, child) in children.into_iter().enumerate() {
+        if i == 0 && collects_left {
+            continue;
+        }
+        match requirements.child_distribution(i) {
+            None | Some(Distribution::UnspecifiedDistribution) => {}
+            Some(Distribution::SinglePartition) => return true,
+            // Hash partitioned inputs come from a shuffle, which already places together all the
+            // rows with the same key no matter the number of tasks.
+            Some(_) => {
+                let partitioning = child.output_partitioning();
+                if partitioning.partition_count() == 1
+                    && !matches!(partitioning, Partitioning::Hash(_, _))
+                {
+                    return true;
+                }
+            }
+        }
+    }
+    false
+}
+
 /// Walks `plan` top-down and records the given `task_count` for every node up until the next
 /// network boundary, scaling leaves and rebuilding intermediate nodes as needed.
 ///
-- 
2.43.0


From 3d41512f7f1dcae231e95acef5f43088e78f209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 03/40] fix: restore the orderings that are lost when crossing
 a network shuffle

---
 .../inject_network_boundaries.rs              | 52 ++++++++++++++++++-
 src/execution_plans/common.rs                 | 12 ++++-
 src/execution_plans/network_broadcast.rs      |  3 +-
 src/execution_plans/network_coalesce.rs       |  9 +++-
 src/execution_plans/network_shuffle.rs        |  4 +-
 5 files changed, 73 insertions(+), 7 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index dc24f49..8c0ec3b 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,13 +14,14 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::{LexOrdering, LexRequirement, OrderingRequirements, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
     CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode,
 };
 use datafusion::physical_plan::repartition::RepartitionExec;
+use datafusion::physical_plan::sorts::sort::SortExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, Distribution, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
@@ -314,6 +315,7 @@ async fn _inject_network_boundaries(
         task_count
     };
 
+    let processed_children = restore_lost_orderings(&plan, processed_children, nb_ctx)?;
     let plan = plan.replace_children(
         processed_children,
         ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute),
@@ -409,6 +411,54 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Sorts again the `processed_children` that no longer have the ordering that `plan` needs.
+///
+/// DataFusion relies on the ordering of the input of a [RepartitionExec] being preserved in some
+/// cases (e.g. if it has a single input partition), but the rows that cross a network shuffle come
+/// interleaved from several tasks.
+fn restore_lost_orderings(
+    plan: &Arc<dyn ExecutionPlan>,
+    processed_children: Vec<Arc<dyn ExecutionPlan>>,
+    nb_ctx: &InjectNetworkBoundaryContext<'_>,
+) -> Result<Vec<Arc<dyn ExecutionPlan>>> {
+    fn satisfies(child: &Arc<dyn ExecutionPlan>, alternatives: &[LexRequirement]) -> Result<bool> {
+        for requirement in alternatives {
+            let eq_properties = child.equivalence_properties();
+            if eq_properties.ordering_satisfy_requirement(requirement.clone())? {
+                return Ok(true);
+            }
+        }
+        Ok(false)
+    }
+
+    // The network boundary that goes below this node does not mix rows from different partitions.
+    if plan.is::<SortPreservingMergeExec>() {
+        return Ok(processed_children);
+    }
+
+    let mut children = Vec::with_capacity(processed_children.len());
+    for ((child, new_child), requirements) in plan
+        .children()
+        .into_iter()
+        .zip(processed_children)
+        .zip(plan.required_input_ordering())
+    {
+        let Some(OrderingRequirements::Hard(alternatives)) = requirements else {
+            children.push(new_child);
+            continue;
+        };
+        if satisfies(&new_child, &alternatives)? || !satisfies(child, &alternatives)? {
+            children.push(new_child);
+            continue;
+        }
+        let task_count = nb_ctx.task_count(&new_child)?;
+        let ordering = LexOrdering::from(OrderingRequirements::Hard(alternatives).into_single());
+        let sort = SortExec::new(ordering, new_child).with_preserve_partitioning(true);
+        children.push(nb_ctx.plan_with_task_count(Arc::new(sort), task_count));
+    }
+    Ok(children)
+}
+
 /// Returns true if `plan` is only correct when a single task executes it.
 ///
 /// A single-partition input trivially satisfies any distribution required by its parent, so
diff --git a/src/execution_plans/common.rs b/src/execution_plans/common.rs
index d4a9544..7f320a3 100644
--- a/src/execution_plans/common.rs
+++ b/src/execution_plans/common.rs
@@ -1,5 +1,5 @@
 use datafusion::common::{Result, not_impl_err};
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::{EquivalenceProperties, Partitioning};
 use datafusion::physical_plan::PlanProperties;
 use std::sync::Arc;
 
@@ -15,6 +15,16 @@ pub(super) fn scale_partitioning_props(
     )))
 }
 
+/// Forgets any equivalence, constant or ordering property about the rows.
+///
+/// Rows coming from several producer tasks get interleaved when they cross a network boundary, and
+/// none of these properties is available in the worker that executes the boundary, so the planner
+/// must not rely on them.
+pub(super) fn forget_row_properties(props: &Arc<PlanProperties>) -> PlanProperties {
+    let schema = Arc::clone(props.eq_properties.schema());
+    PlanProperties::clone(props).with_eq_properties(EquivalenceProperties::new(schema))
+}
+
 pub(super) fn scale_partitioning(
     partitioning: &Partitioning,
     f: impl FnOnce(usize) -> usize,
diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index 94bca6d..4f2fab3 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -1,5 +1,6 @@
 use crate::common::require_one_child;
 use crate::distributed_planner::{NetworkBoundary, ProducerHead};
+use crate::execution_plans::common::forget_row_properties;
 use crate::stage::{LocalStage, Stage};
 use crate::worker::WorkerConnectionPool;
 use crate::{BroadcastExec, DistributedTaskContext};
@@ -128,7 +129,7 @@ impl NetworkBroadcastExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
         let input_partition_count = input_properties.partitioning.partition_count();
         let properties = Arc::new(
-            PlanProperties::clone(&input_properties)
+            forget_row_properties(&input_properties)
                 .with_partitioning(Partitioning::UnknownPartitioning(input_partition_count)),
         );
 
diff --git a/src/execution_plans/network_coalesce.rs b/src/execution_plans/network_coalesce.rs
index 4cbaec0..6d06227 100644
--- a/src/execution_plans/network_coalesce.rs
+++ b/src/execution_plans/network_coalesce.rs
@@ -8,7 +8,7 @@ use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::common::{exec_err, not_impl_err, plan_err};
 use datafusion::error::Result;
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
-use datafusion::physical_expr::PhysicalExpr;
+use datafusion::physical_expr::{EquivalenceProperties, PhysicalExpr};
 use datafusion::physical_expr_common::metrics::MetricsSet;
 use datafusion::physical_plan::limit::LocalLimitExec;
 use datafusion::physical_plan::projection::ProjectionExec;
@@ -93,9 +93,14 @@ impl NetworkCoalesceExec {
         // smaller groups.
         let max_input_task_count = input_stage.task_count().div_ceil(consumer_tasks).max(1);
         let props = scale_partitioning_props(&input_properties, |p| p * max_input_task_count)?;
+        // Partitions are not mixed here, so each one of them keeps its ordering.
+        let eq_properties = EquivalenceProperties::new_with_orderings(
+            Arc::clone(props.eq_properties.schema()),
+            props.eq_properties.oeq_class().iter().cloned(),
+        );
 
         Ok(Self {
-            properties: props,
+            properties: Arc::new(PlanProperties::clone(&props).with_eq_properties(eq_properties)),
             worker_connections: WorkerConnectionPool::new(input_stage.task_count()),
             input_stage,
         })
diff --git a/src/execution_plans/network_shuffle.rs b/src/execution_plans/network_shuffle.rs
index fbb4200..8fc3bf5 100644
--- a/src/execution_plans/network_shuffle.rs
+++ b/src/execution_plans/network_shuffle.rs
@@ -1,6 +1,6 @@
 use crate::common::require_one_child;
 use crate::distributed_planner::ProducerHead;
-use crate::execution_plans::common::scale_partitioning;
+use crate::execution_plans::common::{forget_row_properties, scale_partitioning};
 use crate::stage::{LocalStage, Stage};
 use crate::worker::WorkerConnectionPool;
 use crate::{DistributedTaskContext, MaybeEncoded, NetworkBoundary};
@@ -110,7 +110,7 @@ pub struct NetworkShuffleExec {
 impl NetworkShuffleExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
         Self {
-            properties: input_properties,
+            properties: Arc::new(forget_row_properties(&input_properties)),
             worker_connections: WorkerConnectionPool::new(input_stage.task_count()),
             input_stage,
         }
-- 
2.43.0


From f13406f445a224ec562c79a5618551884ba58990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 04/40] fix: do not overflow while estimating the output of a
 barely sampled stage

---
 src/coordinator/prepare_dynamic_plan.rs          | 14 +++++++++++---
 src/distributed_planner/statistics/complexity.rs |  2 +-
 src/distributed_planner/statistics/cost.rs       |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..70f4c67 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+        && rows_pulled_from_leafs > 0
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
@@ -295,8 +297,14 @@ async fn gather_runtime_statistics(
         return Ok((zero_stats(n_cols), new_metrics));
     }
 
-    let per_col_byte_size = vec_mul(per_col_bytes_ready, 1. / estimated_pct_sampled);
-    let total_byte_size: usize = per_col_byte_size.iter().sum();
+    // The sampled percentage can be arbitrarily close to 0, so beware of overflows.
+    let per_col_byte_size: Vec<usize> = per_col_bytes_ready
+        .into_iter()
+        .map(|bytes| (bytes as f32 / estimated_pct_sampled) as usize)
+        .collect();
+    let total_byte_size = per_col_byte_size
+        .iter()
+        .fold(0usize, |acc, bytes| acc.saturating_add(*bytes));
 
     new_metrics.push(BytesCounterMetric::new_metric(
         "estimated_output_bytes",
diff --git a/src/distributed_planner/statistics/complexity.rs b/src/distributed_planner/statistics/complexity.rs
index b03c6c7..c0d8f36 100644
--- a/src/distributed_planner/statistics/complexity.rs
+++ b/src/distributed_planner/statistics/complexity.rs
@@ -100,7 +100,7 @@ impl Complexity {
                 // `ilog2` panics on 0, which happens whenever the logged input has zero estimated
                 // bytes/rows (e.g. an empty or fully-pruned relation). Flooring at 1 makes log2
                 // contribute 0 there, i.e. sorting/merging nothing costs nothing.
-                n * m.checked_ilog2().unwrap_or(0) as usize
+                n.saturating_mul(m.checked_ilog2().unwrap_or(0) as usize)
             }
             Self::Plus(n, m) => n
                 .cost(output_stat, input_stats)?
diff --git a/src/distributed_planner/statistics/cost.rs b/src/distributed_planner/statistics/cost.rs
index dbb76e5..fa63690 100644
--- a/src/distributed_planner/statistics/cost.rs
+++ b/src/distributed_planner/statistics/cost.rs
@@ -25,7 +25,7 @@ impl AddAssign for Cost {
 
 fn sum_precision(one: Precision<usize>, other: Precision<usize>) -> Precision<usize> {
     match (one.get_value(), other.get_value()) {
-        (Some(one), Some(other)) => Precision::Inexact(one + other),
+        (Some(one), Some(other)) => Precision::Inexact(one.saturating_add(*other)),
         (Some(one), None) => Precision::Inexact(*one),
         (None, Some(other)) => Precision::Inexact(*other),
         (None, None) => Precision::Absent,
-- 
2.43.0


From 07508b305d840340b187818eee05e01000b98430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 05/40] fix: release the buffered bytes of partition streams
 dropped before being drained

---
 src/protocol/grpc/worker_client.rs | 66 +++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 060d8e8..6237beb 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -22,7 +22,7 @@ use datafusion::common::instant::Instant;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::{DataFusionError, Result};
 use datafusion::execution::TaskContext;
-use datafusion::execution::memory_pool::MemoryConsumer;
+use datafusion::execution::memory_pool::{MemoryConsumer, MemoryReservation};
 use datafusion::physical_expr_common::metrics::{Count, Label, MetricBuilder, MetricValue, Time};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::stream::BoxStream;
@@ -100,7 +100,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         // for them in the memory pool.
         let memory_reservation =
             Arc::new(MemoryConsumer::new("WorkerConnection").register(ctx.memory_pool()));
-        let memory_reservation_clone = Arc::clone(&memory_reservation);
 
         // Track the maximum memory used to buffer recieved messages.
         let mut curr_max_mem = 0;
@@ -139,7 +138,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         }
 
         let mem_available_notify = Arc::new(Notify::new());
-        let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
 
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
@@ -195,7 +193,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
-                        _ = mem_available_notify_for_task.notified() => {}
+                        _ = mem_available_notify.notified() => {}
                     }
                 }
 
@@ -252,7 +250,11 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // memory reservation means releasing the memory from the pool for that specific
                 // message
                 let size = flight_data.encoded_len();
-                memory_reservation.grow(size);
+                let buffered_bytes = BufferedBytes::new(
+                    size,
+                    Arc::clone(&memory_reservation),
+                    Arc::clone(&mem_available_notify),
+                );
 
                 // Update memory related metrics.
                 msg_count.add(1);
@@ -263,14 +265,10 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
-                if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
-                    // The receiver for this partition was dropped (e.g. a hash join partition
-                    // completed early without consuming its probe side). Don't exit: other
-                    // partitions multiplexed over the same gRPC stream still need their data.
-                    // Undo the memory reservation that was grown for this dropped batch.
-                    memory_reservation.shrink(size);
-                    continue;
-                };
+                // The receiver for this partition might have been dropped (e.g. a hash join
+                // partition completed early without consuming its probe side). Don't exit: other
+                // partitions multiplexed over the same gRPC stream still need their data.
+                let _ = o_tx.send(Ok((flight_data, buffered_bytes)));
             }
         }.with_elapsed_compute(elapsed_compute));
 
@@ -290,12 +288,8 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             .flatten_stream();
 
             let stream = stream.map_err(|err| FlightError::Tonic(Box::new(err)));
-            let reservation = Arc::clone(&memory_reservation_clone);
-            let mem_available_notify = Arc::clone(&mem_available_notify);
-            let stream = stream.map_ok(move |(data, _meta)| {
-                reservation.shrink(data.encoded_len());
-                // Wake the demux task in case it is blocked on the byte budget.
-                mem_available_notify.notify_one();
+            let stream = stream.map_ok(move |(data, buffered_bytes)| {
+                drop(buffered_bytes);
                 let _ = &task; // <- keep the task that polls data from the network alive.
                 data
             });
@@ -334,7 +328,39 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
     }
 }
 
-type WorkerMsg = Result<(FlightData, FlightAppMetadata), Status>;
+type WorkerMsg = Result<(FlightData, BufferedBytes), Status>;
+
+/// Accounts for the bytes of a message buffered in a per-partition queue. The bytes are released
+/// as soon as the message leaves the queue, either because it was consumed or because the queue was
+/// dropped with messages still on it.
+struct BufferedBytes {
+    size: usize,
+    reservation: Arc<MemoryReservation>,
+    mem_available_notify: Arc<Notify>,
+}
+
+impl BufferedBytes {
+    fn new(
+        size: usize,
+        reservation: Arc<MemoryReservation>,
+        mem_available_notify: Arc<Notify>,
+    ) -> Self {
+        reservation.grow(size);
+        Self {
+            size,
+            reservation,
+            mem_available_notify,
+        }
+    }
+}
+
+impl Drop for BufferedBytes {
+    fn drop(&mut self) {
+        self.reservation.shrink(self.size);
+        // Wake the demux task in case it is blocked on the byte budget.
+        self.mem_available_notify.notify_one();
+    }
+}
 
 struct NetworkLatencyMetrics {
     metrics: ExecutionPlanMetricsSet,
-- 
2.43.0


From 804849235807280dcdf202ff048b60723a89344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 06/40] fix: do not let exhausted buffer budgets starve the
 partition streams being read

---
 src/protocol/grpc/worker_client.rs | 41 ++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 6237beb..f8c390d 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -33,12 +33,11 @@ use prost::Message;
 use std::borrow::Cow;
 use std::pin::Pin;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::task::{Context, Poll};
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 use tokio::sync::Notify;
 use tokio::sync::mpsc::UnboundedSender;
-use tokio_stream::wrappers::UnboundedReceiverStream;
 use tokio_util::sync::CancellationToken;
 use tonic::metadata::MetadataMap;
 use tonic::{Request, Status};
@@ -139,6 +138,16 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
 
         let mem_available_notify = Arc::new(Notify::new());
 
+        // Tells which partitions have a reader waiting on an empty queue.
+        let starving_partitions = Arc::new(
+            target_partition_range
+                .clone()
+                .map(|_| AtomicBool::new(false))
+                .collect::<Vec<_>>(),
+        );
+        let starving_partitions_for_task = Arc::clone(&starving_partitions);
+        let mem_available_notify_for_readers = Arc::clone(&mem_available_notify);
+
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
 
@@ -189,7 +198,14 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // the way back to the worker without coupling sibling partitions.
                 // We always allow a message through when reservation == 0 to avoid
                 // livelock if a single message is larger than the budget.
-                while memory_reservation.size() >= buffer_budget_bytes {
+                // If there is a reader waiting on an empty queue, we need to keep pulling even if
+                // the budget is exhausted: the sibling partitions that exhausted it might not be
+                // drained until that reader makes progress (e.g. in a sort preserving merge).
+                while memory_reservation.size() >= buffer_budget_bytes
+                    && !starving_partitions_for_task
+                        .iter()
+                        .any(|starving| starving.load(Ordering::SeqCst))
+                {
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
@@ -268,6 +284,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // The receiver for this partition might have been dropped (e.g. a hash join
                 // partition completed early without consuming its probe side). Don't exit: other
                 // partitions multiplexed over the same gRPC stream still need their data.
+                starving_partitions_for_task[sender_i].store(false, Ordering::SeqCst);
                 let _ = o_tx.send(Ok((flight_data, buffered_bytes)));
             }
         }.with_elapsed_compute(elapsed_compute));
@@ -276,14 +293,26 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         let not_consumed_streams = Arc::new(AtomicUsize::new(per_partition_rx.len()));
 
         let mut result = Vec::with_capacity(per_partition_rx.len());
-        for partition_receiver in per_partition_rx {
+        for (i, mut partition_receiver) in per_partition_rx.into_iter().enumerate() {
             let task = Arc::clone(&task);
             let cancel_token = cancel_token.clone();
 
             let first_poll_notify = Arc::clone(&first_poll_notify);
+            let starving_partitions_for_reader = Arc::clone(&starving_partitions);
+            let mem_available_notify = Arc::clone(&mem_available_notify_for_readers);
             let stream = async move {
                 first_poll_notify.notify_one();
-                UnboundedReceiverStream::new(partition_receiver)
+                futures::stream::poll_fn(move |cx| {
+                    let starving = &starving_partitions_for_reader[i];
+                    starving.store(true, Ordering::SeqCst);
+                    let poll = partition_receiver.poll_recv(cx);
+                    match poll.is_ready() {
+                        true => starving.store(false, Ordering::SeqCst),
+                        // Wake the demux task in case it is blocked on the byte budget.
+                        false => mem_available_notify.notify_one(),
+                    }
+                    poll
+                })
             }
             .flatten_stream();
 
@@ -299,8 +328,10 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
 
             // When the stream is dropped, cancel the background task to ensure prompt cleanup.
             let not_consumed_streams = Arc::clone(&not_consumed_streams);
+            let starving_partitions = Arc::clone(&starving_partitions);
             result.push(
                 on_drop_stream(stream, move || {
+                    starving_partitions[i].store(false, Ordering::SeqCst);
                     let remaining_streams = not_consumed_streams.fetch_sub(1, Ordering::SeqCst) - 1;
                     if remaining_streams == 0 {
                         cancel_token.cancel();
-- 
2.43.0


From 16422e8cfa274aa8b887db8312c228d65831ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 07/40] fix: do not rely on row properties that are lost when
 crossing a network coalesce

---
 src/execution_plans/network_coalesce.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/execution_plans/network_coalesce.rs b/src/execution_plans/network_coalesce.rs
index 6d06227..a1de696 100644
--- a/src/execution_plans/network_coalesce.rs
+++ b/src/execution_plans/network_coalesce.rs
@@ -1,14 +1,14 @@
 use crate::DistributedTaskContext;
 use crate::common::require_one_child;
 use crate::distributed_planner::{NetworkBoundary, ProducerHead};
-use crate::execution_plans::common::scale_partitioning_props;
+use crate::execution_plans::common::{forget_row_properties, scale_partitioning_props};
 use crate::stage::{LocalStage, Stage};
 use crate::worker::WorkerConnectionPool;
 use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::common::{exec_err, not_impl_err, plan_err};
 use datafusion::error::Result;
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
-use datafusion::physical_expr::{EquivalenceProperties, PhysicalExpr};
+use datafusion::physical_expr::PhysicalExpr;
 use datafusion::physical_expr_common::metrics::MetricsSet;
 use datafusion::physical_plan::limit::LocalLimitExec;
 use datafusion::physical_plan::projection::ProjectionExec;
@@ -93,14 +93,8 @@ impl NetworkCoalesceExec {
         // smaller groups.
         let max_input_task_count = input_stage.task_count().div_ceil(consumer_tasks).max(1);
         let props = scale_partitioning_props(&input_properties, |p| p * max_input_task_count)?;
-        // Partitions are not mixed here, so each one of them keeps its ordering.
-        let eq_properties = EquivalenceProperties::new_with_orderings(
-            Arc::clone(props.eq_properties.schema()),
-            props.eq_properties.oeq_class().iter().cloned(),
-        );
-
         Ok(Self {
-            properties: Arc::new(PlanProperties::clone(&props).with_eq_properties(eq_properties)),
+            properties: Arc::new(forget_row_properties(&props)),
             worker_connections: WorkerConnectionPool::new(input_stage.task_count()),
             input_stage,
         })
-- 
2.43.0


From 8fd0279da6ebbfd0e3a178bedc2f447d21253a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 08/40] fix: restore every ordering that a node needs and lost
 while planning the distribution

---
 src/distributed_planner/inject_network_boundaries.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 8c0ec3b..ebf1c7a 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -415,7 +415,8 @@ async fn _inject_network_boundaries(
 ///
 /// DataFusion relies on the ordering of the input of a [RepartitionExec] being preserved in some
 /// cases (e.g. if it has a single input partition), but the rows that cross a network shuffle come
-/// interleaved from several tasks.
+/// interleaved from several tasks. Broadcasting the build side of a
+/// join also hides the constants in there, which trivially satisfied any ordering.
 fn restore_lost_orderings(
     plan: &Arc<dyn ExecutionPlan>,
     processed_children: Vec<Arc<dyn ExecutionPlan>>,
@@ -437,17 +438,15 @@ fn restore_lost_orderings(
     }
 
     let mut children = Vec::with_capacity(processed_children.len());
-    for ((child, new_child), requirements) in plan
-        .children()
+    for (new_child, requirements) in processed_children
         .into_iter()
-        .zip(processed_children)
         .zip(plan.required_input_ordering())
     {
         let Some(OrderingRequirements::Hard(alternatives)) = requirements else {
             children.push(new_child);
             continue;
         };
-        if satisfies(&new_child, &alternatives)? || !satisfies(child, &alternatives)? {
+        if satisfies(&new_child, &alternatives)? {
             children.push(new_child);
             continue;
         }
-- 
2.43.0


From 01629b14d5cf6ab2b2387fa1fed98fca97780c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 09/40] fix: report a panic in the input of a broadcast instead
 of ending the stream

---
 src/execution_plans/broadcast.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/execution_plans/broadcast.rs b/src/execution_plans/broadcast.rs
index 4d06d4d..1352520 100644
--- a/src/execution_plans/broadcast.rs
+++ b/src/execution_plans/broadcast.rs
@@ -1,6 +1,7 @@
 use crate::common::{OnceLockResult, require_one_child};
 use crossbeam_queue::SegQueue;
 use datafusion::arrow::datatypes::SchemaRef;
+use datafusion::common::internal_datafusion_err;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::error::{DataFusionError, Result};
@@ -11,8 +12,10 @@ use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
 use datafusion::physical_plan::{
     DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PlanProperties, internal_err,
 };
-use futures::{Stream, StreamExt};
+use futures::{FutureExt, Stream, StreamExt};
+use std::any::Any;
 use std::fmt::Formatter;
+use std::panic::AssertUnwindSafe;
 use std::pin::Pin;
 use std::sync::{Arc, Mutex, OnceLock};
 use std::task::{Context, Poll};
@@ -182,7 +185,13 @@ impl ExecutionPlan for BroadcastExec {
             let task = SpawnedTask::spawn(async move {
                 let mem_consumer = MemoryConsumer::new(format!("BroadcastExec[{real_partition}]"));
 
-                while let Some(msg) = stream.next().await {
+                loop {
+                    // A panic here must not look like the end of the input to the consumers.
+                    let next = AssertUnwindSafe(stream.next()).catch_unwind().await;
+                    let Some(msg) = next.unwrap_or_else(|panic| Some(Err(panic_to_err(panic))))
+                    else {
+                        break;
+                    };
                     match msg {
                         Ok(record_batch) => {
                             let reservation = mem_consumer.clone_with_new_id().register(&pool);
@@ -219,6 +228,15 @@ impl ExecutionPlan for BroadcastExec {
     }
 }
 
+fn panic_to_err(panic: Box<dyn Any + Send>) -> DataFusionError {
+    let msg = panic
+        .downcast_ref::<String>()
+        .map(String::as_str)
+        .or_else(|| panic.downcast_ref::<&str>().copied())
+        .unwrap_or("unknown cause");
+    internal_datafusion_err!("Panic while executing the input of a BroadcastExec: {msg}")
+}
+
 #[derive(Debug, Clone, Copy)]
 struct BroadcastState {
     len: usize,
-- 
2.43.0


From 21b511698afec8af2b8779bf17d410142f3fd15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 10/40] fix: keep a repartition at the head of a stage that is
 gathered

---
 src/distributed_planner/network_boundary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 000d09e..a4b9520 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,6 +84,10 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
+        // A repartition at the head of a stage that needs no specific head belongs to the query.
+        if matches!(self, ProducerHead::None) {
+            return Ok(input);
+        }
         let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
             Arc::clone(r_exec.input())
         } else if let Some(b_exec) = input.downcast_ref::<BroadcastExec>() {
-- 
2.43.0


From 16d3e0fd3ce5b4ec6c0aad9abe78c139b9fd8ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 11/40] fix: report a panic in a partition served over gRPC
 instead of ending it

The task that drains a partition in spawn_select_all dropped its queue when the
partition panicked, which the client could not tell apart from the partition's
end: the query finished with part of the rows.
---
 src/common/mod.rs                   |  2 ++
 src/common/panic.rs                 | 12 ++++++++++++
 src/execution_plans/broadcast.rs    | 18 ++++--------------
 src/protocol/grpc/worker_service.rs | 15 ++++++++++++---
 4 files changed, 30 insertions(+), 17 deletions(-)
 create mode 100644 src/common/panic.rs

diff --git a/src/common/mod.rs b/src/common/mod.rs
index 7dfd3a9..31f1924 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,6 +1,7 @@
 mod children_helpers;
 mod maybe_encoded;
 mod once_lock;
+mod panic;
 mod recursion;
 mod task_context_helpers;
 mod time;
@@ -10,6 +11,7 @@ mod vec;
 pub(crate) use children_helpers::require_one_child;
 pub use maybe_encoded::MaybeEncoded;
 pub(crate) use once_lock::OnceLockResult;
+pub(crate) use panic::panic_to_err;
 pub(crate) use recursion::TreeNodeExt;
 pub(crate) use task_context_helpers::task_ctx_with_extension;
 pub(crate) use time::now_ns;
diff --git a/src/common/panic.rs b/src/common/panic.rs
new file mode 100644
index 0000000..8fe26c1
--- /dev/null
+++ b/src/common/panic.rs
@@ -0,0 +1,12 @@
+use datafusion::common::{DataFusionError, internal_datafusion_err};
+use std::any::Any;
+
+/// Turns the payload of a panic caught while executing `what` into an error.
+pub(crate) fn panic_to_err(panic: Box<dyn Any + Send>, what: &str) -> DataFusionError {
+    let msg = panic
+        .downcast_ref::<String>()
+        .map(String::as_str)
+        .or_else(|| panic.downcast_ref::<&str>().copied())
+        .unwrap_or("unknown cause");
+    internal_datafusion_err!("Panic while executing {what}: {msg}")
+}
diff --git a/src/execution_plans/broadcast.rs b/src/execution_plans/broadcast.rs
index 1352520..9692e60 100644
--- a/src/execution_plans/broadcast.rs
+++ b/src/execution_plans/broadcast.rs
@@ -1,7 +1,6 @@
-use crate::common::{OnceLockResult, require_one_child};
+use crate::common::{OnceLockResult, panic_to_err, require_one_child};
 use crossbeam_queue::SegQueue;
 use datafusion::arrow::datatypes::SchemaRef;
-use datafusion::common::internal_datafusion_err;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::error::{DataFusionError, Result};
@@ -13,7 +12,6 @@ use datafusion::physical_plan::{
     DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PlanProperties, internal_err,
 };
 use futures::{FutureExt, Stream, StreamExt};
-use std::any::Any;
 use std::fmt::Formatter;
 use std::panic::AssertUnwindSafe;
 use std::pin::Pin;
@@ -188,8 +186,9 @@ impl ExecutionPlan for BroadcastExec {
                 loop {
                     // A panic here must not look like the end of the input to the consumers.
                     let next = AssertUnwindSafe(stream.next()).catch_unwind().await;
-                    let Some(msg) = next.unwrap_or_else(|panic| Some(Err(panic_to_err(panic))))
-                    else {
+                    let Some(msg) = next.unwrap_or_else(|panic| {
+                        Some(Err(panic_to_err(panic, "the input of a BroadcastExec")))
+                    }) else {
                         break;
                     };
                     match msg {
@@ -228,15 +227,6 @@ impl ExecutionPlan for BroadcastExec {
     }
 }
 
-fn panic_to_err(panic: Box<dyn Any + Send>) -> DataFusionError {
-    let msg = panic
-        .downcast_ref::<String>()
-        .map(String::as_str)
-        .or_else(|| panic.downcast_ref::<&str>().copied())
-        .unwrap_or("unknown cause");
-    internal_datafusion_err!("Panic while executing the input of a BroadcastExec: {msg}")
-}
-
 #[derive(Debug, Clone, Copy)]
 struct BroadcastState {
     len: usize,
diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 1f0fdf0..241ee5e 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -3,7 +3,7 @@ use super::generated::worker as pb;
 use super::metrics_proto::df_metrics_set_to_proto;
 use super::spawn_select_all::spawn_select_all;
 
-use crate::common::{deserialize_uuid, now_ns};
+use crate::common::{deserialize_uuid, now_ns, panic_to_err};
 use crate::protocol::grpc::{ObservabilityServiceImpl, ObservabilityServiceServer};
 use crate::{
     CoordinatorToWorkerMsg, DistributedConfig, ExecuteTaskRequest, LoadInfo, MaybeEncoded,
@@ -24,6 +24,7 @@ use datafusion::execution::SendableRecordBatchStream;
 use futures::stream::BoxStream;
 use futures::{StreamExt, TryStreamExt};
 use prost::Message;
+use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 use tonic::{Request, Response, Status, Streaming};
 use url::Url;
@@ -156,8 +157,16 @@ impl pb::worker_service_server::WorkerService for Worker {
         };
         let mut flight_streams = Vec::with_capacity(arrow_streams.len());
         for (partition, arrow_stream) in partition_range.zip(arrow_streams) {
-            let flight_stream =
-                build_flight_data_stream(arrow_stream, compression)?.map(move |msg| {
+            let flight_stream = build_flight_data_stream(arrow_stream, compression)?;
+            // A panic here must not look like the end of the partition to the client.
+            let flight_stream = AssertUnwindSafe(flight_stream)
+                .catch_unwind()
+                .map(move |msg| {
+                    let msg = msg.unwrap_or_else(|panic| {
+                        let err = panic_to_err(panic, &format!("partition {partition}"));
+                        let status = datafusion_error_to_tonic_status(err);
+                        Err(FlightError::Tonic(Box::new(status)))
+                    });
                     // For each FlightData produced by this stream, mark it with the appropriate
                     // partition. This stream will be merged with several others from other partitions,
                     // so marking it with the original partition allows it to be deconstructed into
-- 
2.43.0


From c51af0c6d2f242b94b578a2bdaaa52d14944df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 12/40] fix: report a failed background task of the coordinator
 instead of starving the query

A failure while handing a plan over to a worker (or in a WorkUnit feed) was only looked at after
the head stage had ended, so readers waited for a plan that never arrived and the query ended
with their timeout instead of the original cause.
---
 src/coordinator/distributed.rs       | 10 +++++++++-
 src/coordinator/query_coordinator.rs | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/distributed.rs b/src/coordinator/distributed.rs
index 1e5fc79..546bc84 100644
--- a/src/coordinator/distributed.rs
+++ b/src/coordinator/distributed.rs
@@ -232,7 +232,15 @@ impl ExecutionPlan for DistributedExec {
                 .expect("poisoned lock")
                 .replace(Arc::clone(&result.head_stage));
             let mut stream = result.head_stage.execute(partition, context)?;
-            while let Some(msg) = stream.next().await {
+            loop {
+                // If a background task fails (e.g. a worker never got its plan), the head stage is
+                // going to starve, so report the failure itself rather than its consequences.
+                let msg = tokio::select! {
+                    biased;
+                    msg = stream.next() => msg,
+                    err = query_coordinator.background_failure() => return Err(err),
+                };
+                let Some(msg) = msg else { break };
                 if tx.send(msg).await.is_err() {
                     break; // channel closed
                 }
diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2f9c99f..231160e 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -27,6 +27,7 @@ use datafusion::prelude::SessionConfig;
 use futures::{Stream, StreamExt, TryStreamExt};
 use std::ops::DerefMut;
 use std::sync::{Arc, Mutex};
+use std::task::Poll;
 use tokio::sync::Notify;
 use tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender};
 use tokio_stream::wrappers::UnboundedReceiverStream;
@@ -97,6 +98,26 @@ impl QueryCoordinator {
         NotifyGuard(Arc::clone(&self.end_stream_notifier))
     }
 
+    /// Resolves with the error of the first background task that fails (e.g., because a plan could
+    /// not be handed over to a worker, or because a WorkUnit feed failed). It never resolves if no
+    /// background task fails.
+    pub(super) async fn background_failure(&self) -> DataFusionError {
+        std::future::poll_fn(|cx| {
+            let mut join_set = self.join_set.lock().unwrap();
+            loop {
+                match join_set.poll_join_next(cx) {
+                    Poll::Ready(Some(Ok(Ok(())))) => continue,
+                    Poll::Ready(Some(Ok(Err(err)))) => return Poll::Ready(err),
+                    Poll::Ready(Some(Err(err))) => {
+                        return Poll::Ready(DataFusionError::ExecutionJoin(Box::new(err)));
+                    }
+                    Poll::Ready(None) | Poll::Pending => return Poll::Pending,
+                }
+            }
+        })
+        .await
+    }
+
     /// Blocks until all background tasks have finished (e.g., sending WorkUnit feeds, or collecting
     /// metrics)
     pub(super) async fn drain_pending_tasks(self) -> Result<()> {
-- 
2.43.0


From f46e58fcc45b4e74794776b580b9caa1c85fb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 13/40] fix: a panic while a task is set up is reported like
 any other failure

Over gRPC the coordinator only saw its stream being reset and the consumers of the task waited for
a plan until they timed out.
---
 src/worker/impl_coordinator_channel.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..5a5852d 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -1,4 +1,4 @@
-use crate::common::TreeNodeExt;
+use crate::common::{TreeNodeExt, panic_to_err};
 use crate::events::{WorkerPlanRewriteEvent, WorkerPlanRewriteHandlers};
 use crate::execution_plans::SamplerExec;
 use crate::protocol::LocalWorkerContext;
@@ -16,6 +16,7 @@ use datafusion::prelude::SessionConfig;
 use futures::stream::{BoxStream, FuturesUnordered};
 use futures::{FutureExt, StreamExt, TryStreamExt};
 use http::HeaderMap;
+use std::panic::AssertUnwindSafe;
 use std::sync::{Arc, OnceLock};
 use tokio::sync::oneshot;
 use tokio::sync::oneshot::Sender;
@@ -97,7 +98,13 @@ impl Worker {
             })
         };
 
-        let task_data_result = task_data().await.map_err(Arc::new);
+        // A panic (e.g. in a user provided session builder or codec) also needs to be communicated
+        // to the coordinator and to the consumers that are waiting for this entry to be written.
+        let task_data_result = AssertUnwindSafe(task_data())
+            .catch_unwind()
+            .await
+            .unwrap_or_else(|panic| Err(panic_to_err(panic, "the setup of a task")))
+            .map_err(Arc::new);
 
         entry
             .write(task_data_result.clone())
-- 
2.43.0


From ec02e3c9a1da73472909841ae5c6e49f26b34674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 14/40] fix: a panic when a task starts executing is reported
 like any other failure

Over gRPC the consumer only saw its stream being reset, without the cause.
---
 src/worker/impl_execute_task.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 1c62fc1..23ef8b0 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -1,10 +1,12 @@
 use crate::ExecuteTaskRequest;
+use crate::common::panic_to_err;
 use crate::worker::worker_service::Worker;
 use datafusion::common::exec_datafusion_err;
 use datafusion::common::{Result, exec_err};
 use datafusion::error::DataFusionError;
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::sync::Arc;
 use std::time::Duration;
 
@@ -50,7 +52,11 @@ impl Worker {
                 );
             }
 
-            let stream = plan.execute(partition, Arc::clone(&task_ctx))?;
+            // A panic here would otherwise reach the consumer as a broken connection.
+            let stream = catch_unwind(AssertUnwindSafe(|| {
+                plan.execute(partition, Arc::clone(&task_ctx))
+            }))
+            .unwrap_or_else(|panic| Err(panic_to_err(panic, plan_name)))?;
             let stream_schema = plan.schema();
 
             streams.push(Box::pin(RecordBatchStreamAdapter::new(stream_schema, stream)) as _);
-- 
2.43.0


From 9165b8482ea15892e9d23b1d7f33d6541b0a2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 15/40] fix: sort again by the lost ordering instead of just by
 what the next node needs

An ordering lost when crossing a network shuffle was replaced by the weakest one that the next node
accepts, so a SortPreservingMergeExec further up that relied on the original one returned its rows
out of order.
---
 .../inject_network_boundaries.rs              | 80 ++++++++++++-------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index ebf1c7a..a7217a4 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -374,6 +374,8 @@ async fn _inject_network_boundaries(
     else if let Some(parent) = parent
         && (parent.is::<CoalescePartitionsExec>() || parent.is::<SortPreservingMergeExec>())
     {
+        let plan = nb_ctx.plan_with_task_count(plan, task_count);
+        let plan = restore_lost_ordering(parent, 0, plan, nb_ctx)?;
         let input_stage = LocalStage {
             query_id: nb_ctx.query_id,
             num: nb_ctx.fetch_add_stage_id(),
@@ -422,42 +424,60 @@ fn restore_lost_orderings(
     processed_children: Vec<Arc<dyn ExecutionPlan>>,
     nb_ctx: &InjectNetworkBoundaryContext<'_>,
 ) -> Result<Vec<Arc<dyn ExecutionPlan>>> {
-    fn satisfies(child: &Arc<dyn ExecutionPlan>, alternatives: &[LexRequirement]) -> Result<bool> {
-        for requirement in alternatives {
-            let eq_properties = child.equivalence_properties();
-            if eq_properties.ordering_satisfy_requirement(requirement.clone())? {
-                return Ok(true);
-            }
-        }
-        Ok(false)
-    }
-
-    // The network boundary that goes below this node does not mix rows from different partitions.
-    if plan.is::<SortPreservingMergeExec>() {
-        return Ok(processed_children);
-    }
-
     let mut children = Vec::with_capacity(processed_children.len());
-    for (new_child, requirements) in processed_children
-        .into_iter()
-        .zip(plan.required_input_ordering())
-    {
-        let Some(OrderingRequirements::Hard(alternatives)) = requirements else {
-            children.push(new_child);
-            continue;
+    for (i, new_child) in processed_children.into_iter().enumerate() {
+        // The coalesce that goes below a [SortPreservingMergeExec] does not mix rows from different
+        // partitions, and its input was already sorted if necessary.
+        let new_child = match new_child.is::<NetworkCoalesceExec>() {
+            true => new_child,
+            false => restore_lost_ordering(plan, i, new_child, nb_ctx)?,
         };
-        if satisfies(&new_child, &alternatives)? {
-            children.push(new_child);
-            continue;
-        }
-        let task_count = nb_ctx.task_count(&new_child)?;
-        let ordering = LexOrdering::from(OrderingRequirements::Hard(alternatives).into_single());
-        let sort = SortExec::new(ordering, new_child).with_preserve_partitioning(true);
-        children.push(nb_ctx.plan_with_task_count(Arc::new(sort), task_count));
+        children.push(new_child);
     }
     Ok(children)
 }
 
+/// Sorts again `new_child`, the replacement for the child number `i` of `plan`, if it no longer has
+/// the ordering that `plan` needs.
+fn restore_lost_ordering(
+    plan: &Arc<dyn ExecutionPlan>,
+    i: usize,
+    new_child: Arc<dyn ExecutionPlan>,
+    nb_ctx: &InjectNetworkBoundaryContext<'_>,
+) -> Result<Arc<dyn ExecutionPlan>> {
+    let Some(OrderingRequirements::Hard(alternatives)) =
+        plan.required_input_ordering().swap_remove(i)
+    else {
+        return Ok(new_child);
+    };
+    for requirement in &alternatives {
+        let eq_properties = new_child.equivalence_properties();
+        if eq_properties.ordering_satisfy_requirement(requirement.clone())? {
+            return Ok(new_child);
+        }
+    }
+    // The nodes above might rely on more than what `plan` needs, so prefer the lost ordering.
+    let ordering = plan.children()[i]
+        .output_ordering()
+        .filter(|ordering| {
+            alternatives.iter().any(|requirement| {
+                ordering.len() >= requirement.len()
+                    && ordering.iter().zip(requirement.iter()).all(|(e, r)| {
+                        e.expr.eq(&r.expr) && r.options.is_none_or(|options| options == e.options)
+                    })
+            })
+        })
+        .cloned()
+        .unwrap_or_else(|| {
+            OrderingRequirements::Hard(alternatives)
+                .into_single()
+                .into()
+        });
+    let task_count = nb_ctx.task_count(&new_child)?;
+    let sort = SortExec::new(ordering, new_child).with_preserve_partitioning(true);
+    Ok(nb_ctx.plan_with_task_count(Arc::new(sort), task_count))
+}
+
 /// Returns true if `plan` is only correct when a single task executes it.
 ///
 /// A single-partition input trivially satisfies any distribution required by its parent, so
-- 
2.43.0


From 738f1cdf34598b2aef2541ed853e08dd9eb8cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 16/40] fix: the end of a query ends its work unit feeds, even
 those with more to offer

---
 src/coordinator/query_coordinator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 231160e..96395b1 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -350,9 +350,18 @@ impl<'a> StageCoordinator<'a> {
             }
         }
 
+        let query_end = Arc::clone(self.end_stream_notifier).notified_owned();
         self.join_set.lock().unwrap().spawn(async move {
             let _guard = WorkUnitEosOnDrop(tx);
-            futures::future::try_join_all(futures).await?;
+            tokio::select! {
+                biased;
+                result = futures::future::try_join_all(futures) => {
+                    result?;
+                }
+                // Nobody reads WorkUnits once the query is over (e.g. because of a LIMIT), so there
+                // is no point in waiting for feeds that still have more of them to offer.
+                () = query_end => {}
+            }
             Ok(())
         });
         Ok(())
-- 
2.43.0


From ed6c01f479b0664b94faddffa8e5e82a1399699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 17/40] fix: small files can be split in more tasks than they
 have byte ranges

---
 src/events/defaults/file_scan_config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f81bd1e..f036231 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -40,7 +40,7 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let file_scan = dse.data_source().downcast_ref::<FileScanConfig>()?;
     let partition_count = ev.plan.output_partitioning().partition_count();
 
-    let rebalanced = if file_scan.output_partitioning.is_some() {
+    let mut rebalanced: Vec<FileGroup> = if file_scan.output_partitioning.is_some() {
         let all_partitioned_files = file_scan
             .file_groups
             .iter()
@@ -61,6 +61,10 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
             .collect()
     };
 
+    // There might be fewer byte ranges than partitions to fill (e.g., small or empty files). Every
+    // task must expose the same number of partitions, so the remaining ones are just empty.
+    rebalanced.resize_with(partition_count * ev.task_count, FileGroup::default);
+
     let mut file_scan_template = file_scan.clone();
     file_scan_template.file_groups.clear();
     let mut file_scans = vec![file_scan_template; ev.task_count];
-- 
2.43.0


From 57459c16374fb0d097d56adf6b36419dbd1d35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 18/40] fix: keep files of the same declared partition together
 when splitting a scan

---
 src/events/defaults/file_scan_config.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f036231..ef2736e 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -41,15 +41,16 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let partition_count = ev.plan.output_partitioning().partition_count();
 
     let mut rebalanced: Vec<FileGroup> = if file_scan.output_partitioning.is_some() {
-        let all_partitioned_files = file_scan
-            .file_groups
-            .iter()
-            .flat_map(|file_group| file_group.iter().cloned())
-            .collect::<Vec<_>>();
-        rebalance_round_robin(all_partitioned_files, partition_count * ev.task_count)
-            .into_iter()
-            .map(FileGroup::new)
-            .collect::<Vec<_>>()
+        // The file groups carry a declared partitioning, so files of the same group must be kept
+        // together, and groups are assigned by position for matching groups of different scans to
+        // land in the same place.
+        rebalance_round_robin(
+            file_scan.file_groups.clone(),
+            partition_count * ev.task_count,
+        )
+        .into_iter()
+        .map(|groups| groups.into_iter().flat_map(FileGroup::into_inner).collect())
+        .collect()
     } else {
         FileGroupPartitioner::new()
             .with_target_partitions(partition_count * ev.task_count)
-- 
2.43.0


From c248c8d0d53f2a85054f20e02b1c3308f2be5de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 19/40] fix: refuse a leaf that was not split in one variant
 per task

---
 src/coordinator/query_coordinator.rs    |  2 +-
 src/execution_plans/distributed_leaf.rs | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 96395b1..3d3620c 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -411,7 +411,7 @@ impl<'a> StageCoordinator<'a> {
             };
 
             if let Some(dle) = plan.downcast_ref::<DistributedLeafExec>() {
-                let specialized = dle.to_task_specialized(d_ctx.task_index);
+                let specialized = dle.to_task_specialized(&d_ctx)?;
                 return Ok(Transformed::yes(specialized));
             }
 
diff --git a/src/execution_plans/distributed_leaf.rs b/src/execution_plans/distributed_leaf.rs
index 9f3d988..1ee5d4a 100644
--- a/src/execution_plans/distributed_leaf.rs
+++ b/src/execution_plans/distributed_leaf.rs
@@ -134,9 +134,23 @@ impl DistributedLeafExec {
         &self.variants
     }
 
-    /// Returns the variant belonging to provided task index.
-    pub(crate) fn to_task_specialized(&self, task_i: usize) -> Arc<dyn ExecutionPlan> {
-        Arc::clone(&self.variants[task_i])
+    /// Returns the variant belonging to provided task, failing if the leaf was not split in exactly
+    /// one variant per task, as otherwise part of the data would not be read by any task.
+    pub(crate) fn to_task_specialized(
+        &self,
+        d_ctx: &DistributedTaskContext,
+    ) -> Result<Arc<dyn ExecutionPlan>> {
+        if self.variants.len() == d_ctx.task_count {
+            return Ok(Arc::clone(&self.variants[d_ctx.task_index]));
+        }
+        if d_ctx.task_count == 1 {
+            return Ok(Arc::clone(&self.original));
+        }
+        exec_err!(
+            "DistributedLeafExec has {} variants, but it is executed in {} tasks",
+            self.variants.len(),
+            d_ctx.task_count
+        )
     }
 }
 
-- 
2.43.0


From e3935e355442b790471c7420fb7fcb013a883503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 20/40] fix: batches sampled before a failure are delivered
 before it

---
 src/execution_plans/sampler.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/execution_plans/sampler.rs b/src/execution_plans/sampler.rs
index 71b7243..a2056e1 100644
--- a/src/execution_plans/sampler.rs
+++ b/src/execution_plans/sampler.rs
@@ -263,16 +263,29 @@ impl PartitionSampler {
 
             peek.reserve(batches.len());
             first_batch_at.get_or_init(Instant::now);
-            for batch in batches {
-                peek.push(batch?);
+            // A failure must not make the batches that came before it disappear: they are handed over
+            // first, then the failure.
+            let mut batches = batches.into_iter();
+            let mut failed = vec![];
+            while let Some(batch) = batches.next() {
+                match batch {
+                    Ok(batch) => peek.push(batch),
+                    Err(err) => {
+                        failed.push(Err(err));
+                        failed.extend(batches.by_ref());
+                    }
+                }
             }
             // If the input stream is already terminated, every batch it will ever produce is now in
             // `peek`, so this partition has reached EOS and its `rows_ready` / `bytes_ready` are
             // final rather than a partial snapshot.
-            reporter.load_info.reached_eos = input_stream.is_terminated();
+            reporter.load_info.reached_eos = failed.is_empty() && input_stream.is_terminated();
             reporter.report(&peek);
 
-            Ok(peek.chain(input_stream).boxed())
+            Ok(peek
+                .chain(futures::stream::iter(failed))
+                .chain(input_stream)
+                .boxed())
         });
 
         let stream = async move {
-- 
2.43.0


From a7f45f3739729530b041d42c6ccb0f278bff12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 21/40] fix: sampling an input that keeps failing reads it a
 million times

---
 src/execution_plans/sampler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/execution_plans/sampler.rs b/src/execution_plans/sampler.rs
index a2056e1..72e044a 100644
--- a/src/execution_plans/sampler.rs
+++ b/src/execution_plans/sampler.rs
@@ -242,7 +242,16 @@ impl PartitionSampler {
 
         // Execute the input synchronously so any setup error surfaces before we
         // spawn the producer task.
-        let mut input_stream = input.execute(partition_idx, ctx)?.fuse();
+        //
+        // Some nodes keep failing when polled again after a failure, so nothing is read past it.
+        let mut input_stream = input
+            .execute(partition_idx, ctx)?
+            .scan(false, |failed, batch| {
+                let batch = (!*failed).then_some(batch);
+                *failed |= matches!(batch, Some(Err(_)));
+                std::future::ready(batch)
+            })
+            .fuse();
 
         let task = SpawnedTask::spawn(async move {
             // First, read at once all the RecordBatches that are ready to be yielded synchronously.
-- 
2.43.0


From 6471c0c46d619b1beb816a14990f55bd9dccde11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 22/40] fix: waiting for the metrics of a query hangs if one of
 its tasks was never executed

---
 src/coordinator/distributed.rs       |  3 ++-
 src/coordinator/metrics_store.rs     | 22 ++++++++++++++++++----
 src/coordinator/query_coordinator.rs |  5 +++++
 src/metrics/task_metrics_rewriter.rs |  3 +++
 src/stage.rs                         | 16 +++++++++-------
 5 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/coordinator/distributed.rs b/src/coordinator/distributed.rs
index 546bc84..39e5881 100644
--- a/src/coordinator/distributed.rs
+++ b/src/coordinator/distributed.rs
@@ -74,7 +74,8 @@ impl DistributedExec {
         self
     }
 
-    /// Waits until all worker tasks have reported their metrics back via the coordinator channel.
+    /// Waits until all worker tasks have reported their metrics back via the coordinator channel,
+    /// or are known to never do so.
     ///
     /// Metrics are delivered asynchronously after query execution completes, so callers that need
     /// complete metrics (e.g. for observability or display) should await this before inspecting
diff --git a/src/coordinator/metrics_store.rs b/src/coordinator/metrics_store.rs
index 8ccc1f7..fea4543 100644
--- a/src/coordinator/metrics_store.rs
+++ b/src/coordinator/metrics_store.rs
@@ -2,7 +2,9 @@ use crate::{TaskKey, TaskMetrics};
 use datafusion::common::HashMap;
 use tokio::sync::watch;
 
-type MetricsMap = HashMap<TaskKey, TaskMetrics>;
+/// `None` for tasks that are over and did not report any metrics (e.g. because they were never
+/// executed, or because they failed).
+type MetricsMap = HashMap<TaskKey, Option<TaskMetrics>>;
 
 /// Stores the metrics collected from all worker tasks, and notifies waiters when new entries arrive.
 #[derive(Debug, Clone)]
@@ -19,17 +21,29 @@ impl MetricsStore {
 
     pub(crate) fn insert(&self, key: TaskKey, metrics: TaskMetrics) {
         self.tx.send_modify(|map| {
-            map.insert(key, metrics);
+            map.insert(key, Some(metrics));
         });
     }
 
+    /// Signals that nothing else is going to be inserted for this task.
+    pub(crate) fn finish(&self, key: TaskKey) {
+        self.tx.send_modify(|map| {
+            map.entry(key).or_default();
+        });
+    }
+
+    /// Whether the metrics of the task were inserted, or it's known that they never will be.
+    pub(crate) fn is_finished(&self, key: &TaskKey) -> bool {
+        self.rx.borrow().contains_key(key)
+    }
+
     pub(crate) fn get(&self, key: &TaskKey) -> Option<TaskMetrics> {
-        self.rx.borrow().get(key).cloned()
+        self.rx.borrow().get(key).cloned().flatten()
     }
 
     #[cfg(test)]
     pub(crate) fn from_entries(entries: impl IntoIterator<Item = (TaskKey, TaskMetrics)>) -> Self {
-        let map: HashMap<_, _> = entries.into_iter().collect();
+        let map: HashMap<_, _> = entries.into_iter().map(|(k, v)| (k, Some(v))).collect();
         let (tx, rx) = watch::channel(map);
         Self { tx, rx }
     }
diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 3d3620c..9d9251a 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -281,6 +281,11 @@ impl<'a> StageCoordinator<'a> {
                     }
                 }
             }
+            // Tasks that failed, or that never got to execute, do not send any metrics, and nobody
+            // should wait for them.
+            if let Some(task_metrics) = &task_metrics {
+                task_metrics.finish(task_key);
+            }
         });
         load_info_rx
     }
diff --git a/src/metrics/task_metrics_rewriter.rs b/src/metrics/task_metrics_rewriter.rs
index a363320..3abbef8 100644
--- a/src/metrics/task_metrics_rewriter.rs
+++ b/src/metrics/task_metrics_rewriter.rs
@@ -234,6 +234,9 @@ pub fn stage_metrics_rewriter(
             task_number: task_id,
         };
         let Some(task_metrics) = metrics_collection.get(&task_key) else {
+            if metrics_collection.is_finished(&task_key) {
+                continue; // the task did not get to execute, so there is nothing to show for it.
+            }
             return internal_err!(
                 "not enough metrics provided to rewrite task: missing metrics for task {} in stage {}",
                 task_id,
diff --git a/src/stage.rs b/src/stage.rs
index cd054c5..dbec9d5 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -440,13 +440,16 @@ fn display_inner_distributed_leaf(
 /// Gathers the metrics global to a stage. These metrics are not specific to any plan node, and
 /// are instead global to a whole stage.
 fn gather_stage_header_metrics(stage: &Stage, metrics_store: &MetricsStore) -> MetricsSet {
-    let mut task_key = TaskKey {
-        query_id: stage.query_id(),
-        stage_id: stage.num(),
-        task_number: 0,
-    };
     let mut all_metrics = stage.metrics();
-    while let Some(metrics_set) = metrics_store.get(&task_key).map(|v| v.task_metrics) {
+    for task_number in 0..stage.task_count() {
+        let task_key = TaskKey {
+            query_id: stage.query_id(),
+            stage_id: stage.num(),
+            task_number,
+        };
+        let Some(metrics_set) = metrics_store.get(&task_key).map(|v| v.task_metrics) else {
+            continue; // the task did not get to execute.
+        };
         for metric in metrics_set.iter() {
             let mut labels = metric.labels().to_vec();
             labels.push(Label::new(
@@ -459,7 +462,6 @@ fn gather_stage_header_metrics(stage: &Stage, metrics_store: &MetricsStore) -> M
                 labels,
             )));
         }
-        task_key.task_number += 1;
     }
     all_metrics
 }
-- 
2.43.0


From 79ad83d618570a3f28170e0f5cf775accb105586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 23/40] fix: per task metrics of scans below an isolated union
 are shown for the wrong tasks

---
 src/stage.rs | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index dbec9d5..e39876d 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -1,5 +1,5 @@
 use crate::coordinator::{DistributedExec, MetricsStore};
-use crate::execution_plans::{DistributedLeafExec, NetworkCoalesceExec};
+use crate::execution_plans::{ChildrenIsolatorUnionExec, DistributedLeafExec, NetworkCoalesceExec};
 use crate::metrics::DISTRIBUTED_DATAFUSION_TASK_ID_LABEL;
 use datafusion::common::{HashMap, Statistics, config_err};
 use datafusion::common::{exec_err, plan_err};
@@ -341,7 +341,12 @@ fn display_ascii(
     }
 
     let mut plan_str = String::new();
-    display_inner_ascii(plan, 0, show_metrics, &mut plan_str)?;
+    let tasks = match stage {
+        Either::Left(_) => 1,
+        Either::Right(stage) => stage.task_count(),
+    };
+    let tasks: Vec<usize> = (0..tasks).collect();
+    display_inner_ascii(plan, 0, show_metrics, &tasks, &mut plan_str)?;
     let plan_str = plan_str
         .split('\n')
         .filter(|v| !v.is_empty())
@@ -361,14 +366,17 @@ fn display_ascii(
     Ok(())
 }
 
+/// `tasks` contains the index of the stage's task that runs each one of the tasks of `plan`. They just
+/// differ below a [ChildrenIsolatorUnionExec], where each child has its own tasks.
 fn display_inner_ascii(
     plan: &Arc<dyn ExecutionPlan>,
     indent: usize,
     show_metrics: bool,
+    tasks: &[usize],
     f: &mut String,
 ) -> std::fmt::Result {
     if plan.is::<DistributedLeafExec>() {
-        return display_inner_distributed_leaf(plan, indent, show_metrics, f);
+        return display_inner_distributed_leaf(plan, indent, show_metrics, tasks, f);
     }
 
     let node_str = displayable(plan.as_ref()).one_line().to_string();
@@ -387,16 +395,39 @@ fn display_inner_ascii(
         return Ok(());
     }
 
-    for child in plan.children() {
-        display_inner_ascii(child, indent + 2, show_metrics, f)?;
+    let ciu = plan.downcast_ref::<ChildrenIsolatorUnionExec>();
+    for (child_i, child) in plan.children().into_iter().enumerate() {
+        let child_tasks = match ciu {
+            Some(ciu) => &tasks_of_isolated_child(ciu, child_i, tasks),
+            None => tasks,
+        };
+        display_inner_ascii(child, indent + 2, show_metrics, child_tasks, f)?;
     }
     Ok(())
 }
 
+/// Translates `tasks`, which contains the task of the stage that runs each one of the union's tasks,
+/// to the tasks of one of the union's children.
+fn tasks_of_isolated_child(
+    ciu: &ChildrenIsolatorUnionExec,
+    child_i: usize,
+    tasks: &[usize],
+) -> Vec<usize> {
+    let mut child_tasks = vec![];
+    for (children, task) in ciu.task_idx_map.iter().zip(tasks) {
+        for (_, ctx) in children.iter().filter(|(i, _)| *i == child_i) {
+            child_tasks.push((ctx.task_index, *task));
+        }
+    }
+    child_tasks.sort_unstable();
+    child_tasks.into_iter().map(|(_, task)| task).collect()
+}
+
 fn display_inner_distributed_leaf(
     plan: &Arc<dyn ExecutionPlan>,
     indent: usize,
     show_metrics: bool,
+    tasks: &[usize],
     f: &mut String,
 ) -> std::fmt::Result {
     let Some(leaf) = plan.downcast_ref::<DistributedLeafExec>() else {
@@ -419,7 +450,12 @@ fn display_inner_distributed_leaf(
             let variant = displayable(variant.as_ref()).one_line().to_string();
             let metrics = match by_task.is_empty() {
                 true => String::new(),
-                false => metrics_suffix(by_task.get(&task_i).map(format_metrics_by_task)),
+                false => metrics_suffix(
+                    tasks
+                        .get(task_i)
+                        .and_then(|task| by_task.get(task))
+                        .map(format_metrics_by_task),
+                ),
             };
             writeln!(f, "{indent}   t{task_i}: {}{metrics}", variant.trim_end())?;
         }
-- 
2.43.0


From ac6183099ef5ce2333d23ef5bfd77bfe96df015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 24/40] fix: the stages of a plan whose head is a network
 boundary are not displayed

---
 src/stage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index e39876d..3a3f45f 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -1064,13 +1064,12 @@ fn build_partition_group(task_i: usize, partitions: usize) -> Vec<usize> {
 }
 
 fn find_input_stages(plan: &dyn ExecutionPlan) -> Vec<&Stage> {
+    if let Some(plan) = plan.as_network_boundary() {
+        return vec![plan.input_stage()];
+    }
     let mut result = vec![];
     for child in plan.children() {
-        if let Some(plan) = child.as_network_boundary() {
-            result.push(plan.input_stage());
-        } else {
-            result.extend(find_input_stages(child.as_ref()));
-        }
+        result.extend(find_input_stages(child.as_ref()));
     }
     result
 }
-- 
2.43.0


From 8d904f87c3adb560badecfaea80b3457b1a34ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 25/40] fix: ratios and fully matched containers of a metric
 are lost over gRPC

---
 src/protocol/grpc/generated/worker.rs | 11 +++++++++++
 src/protocol/grpc/metrics_proto.rs    | 18 ++++++++++++++++--
 src/protocol/grpc/worker.proto        |  7 +++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/protocol/grpc/generated/worker.rs b/src/protocol/grpc/generated/worker.rs
index 6bf8beb..d2cea6d 100644
--- a/src/protocol/grpc/generated/worker.rs
+++ b/src/protocol/grpc/generated/worker.rs
@@ -414,6 +414,8 @@ pub struct NamedPruningMetrics {
     pub pruned: u64,
     #[prost(uint64, tag = "3")]
     pub matched: u64,
+    #[prost(uint64, tag = "4")]
+    pub fully_matched: u64,
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct NamedRatio {
@@ -423,6 +425,15 @@ pub struct NamedRatio {
     pub part: u64,
     #[prost(uint64, tag = "3")]
     pub total: u64,
+    /// Whether merging overwrites the part instead of adding it up.
+    #[prost(bool, tag = "4")]
+    pub set_part: bool,
+    /// Whether merging overwrites the total instead of adding it up.
+    #[prost(bool, tag = "5")]
+    pub set_total: bool,
+    /// Whether the raw part and total are left out when displaying the ratio.
+    #[prost(bool, tag = "6")]
+    pub hide_raw_values: bool,
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct BytesCount {
diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index b71ec3e..a9f2713 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -4,7 +4,9 @@ use datafusion::common::internal_err;
 use datafusion::error::DataFusionError;
 use datafusion::physical_plan::metrics::{Count, Gauge, Label, Time, Timestamp};
 use datafusion::physical_plan::metrics::{Metric, MetricValue, MetricsSet};
-use datafusion::physical_plan::metrics::{PruningMetrics as DfPruningMetrics, RatioMetrics};
+use datafusion::physical_plan::metrics::{
+    PruningMetrics as DfPruningMetrics, RatioMergeStrategy, RatioMetrics,
+};
 use sketches_ddsketch::DDSketch;
 use std::borrow::Cow;
 use std::sync::Arc;
@@ -274,6 +276,7 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 pruned: pruning_metrics.pruned() as u64,
                 matched: pruning_metrics.matched() as u64,
+                fully_matched: pruning_metrics.fully_matched() as u64,
             })),
             partition,
             labels,
@@ -283,6 +286,9 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 part: ratio_metrics.part() as u64,
                 total: ratio_metrics.total() as u64,
+                set_part: matches!(ratio_metrics.merge_strategy(), RatioMergeStrategy::SetPartAddTotal),
+                set_total: matches!(ratio_metrics.merge_strategy(), RatioMergeStrategy::AddPartSetTotal),
+                hide_raw_values: !ratio_metrics.display_raw_values(),
             })),
             partition,
             labels,
@@ -446,6 +452,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             let pruning_metrics = DfPruningMetrics::new();
             pruning_metrics.add_pruned(named_pruning.pruned as usize);
             pruning_metrics.add_matched(named_pruning.matched as usize);
+            pruning_metrics.add_fully_matched(named_pruning.fully_matched as usize);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::PruningMetrics {
                     name: Cow::Owned(named_pruning.name),
@@ -456,7 +463,14 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::Ratio(named_ratio)) => {
-            let ratio_metrics = RatioMetrics::new();
+            let merge_strategy = match (named_ratio.set_part, named_ratio.set_total) {
+                (true, _) => RatioMergeStrategy::SetPartAddTotal,
+                (_, true) => RatioMergeStrategy::AddPartSetTotal,
+                _ => RatioMergeStrategy::AddPartAddTotal,
+            };
+            let ratio_metrics = RatioMetrics::new()
+                .with_merge_strategy(merge_strategy)
+                .with_display_raw_values(!named_ratio.hide_raw_values);
             ratio_metrics.set_part(named_ratio.part as usize);
             ratio_metrics.set_total(named_ratio.total as usize);
             Ok(Arc::new(Metric::new_with_labels(
diff --git a/src/protocol/grpc/worker.proto b/src/protocol/grpc/worker.proto
index 2affe11..b8ebc49 100644
--- a/src/protocol/grpc/worker.proto
+++ b/src/protocol/grpc/worker.proto
@@ -327,12 +327,19 @@ message NamedPruningMetrics {
   string name = 1;
   uint64 pruned = 2;
   uint64 matched = 3;
+  uint64 fully_matched = 4;
 }
 
 message NamedRatio {
   string name = 1;
   uint64 part = 2;
   uint64 total = 3;
+  // Whether merging overwrites the part instead of adding it up.
+  bool set_part = 4;
+  // Whether merging overwrites the total instead of adding it up.
+  bool set_total = 5;
+  // Whether the raw part and total are left out when displaying the ratio.
+  bool hide_raw_values = 6;
 }
 
 message BytesCount {
-- 
2.43.0


From 4af6bb7d938a820a4160eb6fcea30e9447b1f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 26/40] fix: some options of a config extension get lost or
 mixed up with headers on the way to the workers

---
 src/config_extension_ext.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..c7ad54b 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -60,21 +60,23 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .map(|entry| entry.key)
         .collect::<HashSet<_>>();
 
+    // Header names are always lower case, so that is how prefixes and keys are compared.
+    let prefix = format!(
+        "{FLIGHT_METADATA_CONFIG_PREFIX}{}.",
+        T::PREFIX.to_ascii_lowercase()
+    );
     for (k, v) in headers.iter() {
-        let key = k.as_str().trim_start_matches(FLIGHT_METADATA_CONFIG_PREFIX);
-        let prefix = format!("{}.", T::PREFIX);
-        if key.starts_with(&prefix) {
-            let key = key.trim_start_matches(&prefix);
-            if !known_keys.contains(key) {
-                continue;
-            }
-
-            result.as_mut().set(
-                key,
-                v.to_str()
-                    .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
-            )?;
-        }
+        let Some(name) = k.as_str().strip_prefix(&prefix) else {
+            continue;
+        };
+        let Some(key) = known_keys.iter().find(|key| key.eq_ignore_ascii_case(name)) else {
+            continue;
+        };
+        result.as_mut().set(
+            key,
+            v.to_str()
+                .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
+        )?;
     }
 
     // Only insert the extension if it is not already there. If this is otherwise MutOrOwned::Mut it
-- 
2.43.0


From 31064545a2dccdb845e8b79ab8a046b6449b6bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 27/40] fix: distributed options given as a plain option
 extension do not reach the workers

---
 src/config_extension_ext.rs                   | 15 +++++++++------
 src/distributed_planner/distributed_config.rs | 15 +++++++--------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index c7ad54b..426039f 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -13,10 +13,18 @@ pub(crate) fn set_distributed_option_extension<T: ConfigExtension + Default>(
     t: T,
 ) {
     cfg.options_mut().extensions.insert(t);
+    propagate_option_extension::<T>(cfg);
+}
+
+/// Marks an extension for being sent to the workers.
+pub(crate) fn propagate_option_extension<T: ConfigExtension>(cfg: &mut SessionConfig) {
     let mut propagation_ctx = match cfg.get_extension::<ConfigExtensionPropagationContext>() {
         None => ConfigExtensionPropagationContext::default(),
         Some(prev) => prev.as_ref().clone(),
     };
+    if propagation_ctx.prefixes.contains(&T::PREFIX) {
+        return;
+    }
     propagation_ctx.prefixes.push(T::PREFIX);
     cfg.set_extension(Arc::new(propagation_ctx));
 }
@@ -39,12 +47,7 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         }
     }
 
-    let mut propagation_ctx = match cfg.get_extension::<ConfigExtensionPropagationContext>() {
-        None => ConfigExtensionPropagationContext::default(),
-        Some(prev) => prev.as_ref().clone(),
-    };
-    propagation_ctx.prefixes.push(T::PREFIX);
-    cfg.set_extension(Arc::new(propagation_ctx));
+    propagate_option_extension::<T>(cfg);
 
     // If the config extension existed before, we want to modify instead of adding a new one from
     // scratch. If not, we'll start from scratch with a new one.
diff --git a/src/distributed_planner/distributed_config.rs b/src/distributed_planner/distributed_config.rs
index fa33045..925b37e 100644
--- a/src/distributed_planner/distributed_config.rs
+++ b/src/distributed_planner/distributed_config.rs
@@ -1,4 +1,4 @@
-use crate::config_extension_ext::set_distributed_option_extension;
+use crate::config_extension_ext::{propagate_option_extension, set_distributed_option_extension};
 use datafusion::common::{DataFusionError, extensions_options, plan_err};
 use datafusion::config::{ConfigExtension, ConfigOptions};
 use datafusion::execution::TaskContext;
@@ -107,14 +107,13 @@ impl DistributedConfig {
 
     /// Ensures that the [DistributedConfig] is present in the [SessionConfig]'s [ConfigOptions].
     /// If not, it will insert a default [DistributedConfig] into the [SessionConfig]'s [ConfigOptions].
+    ///
+    /// In any case, the [DistributedConfig] gets propagated to the workers, also if it was already
+    /// there as a plain option extension.
     pub(crate) fn ensure_in_config(cfg: &mut SessionConfig) {
-        if cfg
-            .options()
-            .extensions
-            .get::<DistributedConfig>()
-            .is_none()
-        {
-            set_distributed_option_extension(cfg, DistributedConfig::default())
+        match cfg.options().extensions.get::<DistributedConfig>() {
+            None => set_distributed_option_extension(cfg, DistributedConfig::default()),
+            Some(_) => propagate_option_extension::<DistributedConfig>(cfg),
         }
     }
 }
-- 
2.43.0


From 05e9097103457e0c0b95476a9f875e6533f1ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 28/40] fix: queries fail if an option holds a value with
 non-ASCII characters

---
 src/config_extension_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 426039f..bc12ae0 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -77,7 +77,8 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         };
         result.as_mut().set(
             key,
-            v.to_str()
+            // Not HeaderValue::to_str, which refuses anything that is not visible ASCII.
+            std::str::from_utf8(v.as_bytes())
                 .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
         )?;
     }
-- 
2.43.0


From e4d911d2aa7bb0ae18529a46402af6f4686d9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 29/40] fix: unused imports left behind by an earlier fix

---
 src/distributed_planner/inject_network_boundaries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index a7217a4..19ad598 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::{LexOrdering, LexRequirement, OrderingRequirements, Partitioning};
+use datafusion::physical_expr::{OrderingRequirements, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
-- 
2.43.0


From 5bbc3d227abbb5dd62eb6a7e0daeef6148fc1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 30/40] fix: the maximum message size of a worker was ignored

---
 src/protocol/grpc/worker_service.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 241ee5e..a9abd09 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -155,9 +155,11 @@ impl pb::worker_service_server::WorkerService for Worker {
                 "Unknown compression type {v}"
             )))?,
         };
+        let max_message_size = self.max_message_size.unwrap_or(usize::MAX);
         let mut flight_streams = Vec::with_capacity(arrow_streams.len());
         for (partition, arrow_stream) in partition_range.zip(arrow_streams) {
-            let flight_stream = build_flight_data_stream(arrow_stream, compression)?;
+            let flight_stream =
+                build_flight_data_stream(arrow_stream, compression, max_message_size)?;
             // A panic here must not look like the end of the partition to the client.
             let flight_stream = AssertUnwindSafe(flight_stream)
                 .catch_unwind()
@@ -372,6 +374,7 @@ fn missing(field: &'static str) -> impl FnOnce() -> Status {
 fn build_flight_data_stream(
     stream: SendableRecordBatchStream,
     compression_type: Option<CompressionType>,
+    max_message_size: usize,
 ) -> datafusion::common::Result<FlightDataEncoder, Status> {
     let stream = FlightDataEncoderBuilder::new()
         .with_options(
@@ -389,7 +392,7 @@ fn build_flight_data_stream(
         // Note that we do garbage collection of unused dictionary values above, so we are not sending
         // unused dictionary values over the wire.
         .with_dictionary_handling(DictionaryHandling::Resend)
-        // Set max flight data size to unlimited.
+        // The max flight data size is unlimited by default.
         // This requires servers and clients to also be configured to handle unlimited sizes.
         // Using unlimited sizes avoids splitting RecordBatches into multiple FlightData messages,
         // which could add significant overhead for large RecordBatches.
@@ -397,7 +400,7 @@ fn build_flight_data_stream(
         // which mainly makes sense in a public network scenario where you want to avoid DoS attacks.
         // Since all of our Arrow Flight communication happens within trusted data plane networks,
         // we can safely use unlimited sizes here.
-        .with_max_flight_data_size(usize::MAX)
+        .with_max_flight_data_size(max_message_size)
         .build(
             stream
                 // Apply garbage collection of dictionary and view arrays before sending over the network
-- 
2.43.0


From 9364a026e3db0964c01919e2453221f29a806783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 31/40] fix: work units overflow their latency metrics if the
 clock of a worker is behind

---
 src/work_unit_feed/remote_work_unit_feed.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/work_unit_feed/remote_work_unit_feed.rs b/src/work_unit_feed/remote_work_unit_feed.rs
index 5b73ef7..7e61a7e 100644
--- a/src/work_unit_feed/remote_work_unit_feed.rs
+++ b/src/work_unit_feed/remote_work_unit_feed.rs
@@ -193,14 +193,17 @@ impl RemoteFeedProvider {
 
                 msg_count.add(1);
 
-                send_latency_max.add_nanos(sent_timestamp_unix_nanos - base);
-                send_latency_p50.add_nanos(sent_timestamp_unix_nanos - base);
+                // The clocks of the coordinator and the worker are not necessarily in sync.
+                let since_created = |timestamp: usize| timestamp.saturating_sub(base);
 
-                received_latency_max.add_nanos(received_timestamp_unix_nanos - base);
-                received_latency_p50.add_nanos(received_timestamp_unix_nanos - base);
+                send_latency_max.add_nanos(since_created(sent_timestamp_unix_nanos));
+                send_latency_p50.add_nanos(since_created(sent_timestamp_unix_nanos));
 
-                processed_latency_max.add_nanos(processed_timestamp_unix_nanos - base);
-                processed_latency_p50.add_nanos(processed_timestamp_unix_nanos - base);
+                received_latency_max.add_nanos(since_created(received_timestamp_unix_nanos));
+                received_latency_p50.add_nanos(since_created(received_timestamp_unix_nanos));
+
+                processed_latency_max.add_nanos(since_created(processed_timestamp_unix_nanos));
+                processed_latency_p50.add_nanos(since_created(processed_timestamp_unix_nanos));
 
                 Ok(work_unit)
             })
-- 
2.43.0


From 22604e737e2dfce60778ce52b568489b7beb6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:52 +0000
Subject: [PATCH 32/40] fix: the fetch of sorts and filters above a network
 coalesce limits their input

---
 src/distributed_planner/push_fetch_into_network_coalesce.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index a9130b3..8607d37 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -101,7 +101,8 @@ fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
             .and_then(|fetch| fetch.checked_add(global_limit.skip()));
     }
 
-    plan.fetch()
+    // Other nodes, like sorts or filters, may need many more input rows than the ones they return.
+    plan.fetch().filter(|_| plan.supports_limit_pushdown())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 56ac3367090c146d0400d9461dd1871a8a8249e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:15 +0000
Subject: [PATCH 33/40] fix: plans with user-placed boundaries fail if they
 have several partitions

---
 src/distributed_planner/distributed_query_planner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/distributed_query_planner.rs b/src/distributed_planner/distributed_query_planner.rs
index d312b32..62fd265 100644
--- a/src/distributed_planner/distributed_query_planner.rs
+++ b/src/distributed_planner/distributed_query_planner.rs
@@ -110,8 +110,13 @@ fn create_distributed_plan(
         // The plan already contains network boundaries set by the user. Just ensure they have nice
         // unique identifiers for each stage, and move forward with it.
         if original_plan.exists(|plan| Ok(plan.is_network_boundary()))? {
+            // The head stage is executed in a single partition.
+            let mut plan = original_plan;
+            if plan.output_partitioning().partition_count() > 1 {
+                plan = Arc::new(CoalescePartitionsExec::new(plan));
+            }
             // Ensure the leafs are appropriately scaled up.
-            let scaled = original_plan.transform_down_with_task_count(1, |plan, task_count| {
+            let scaled = plan.transform_down_with_task_count(1, |plan, task_count| {
                 if !plan.children().is_empty() {
                     return Ok(Transformed::no(plan));
                 }
-- 
2.43.0


From f734196525efd8f1f5bc8225e9d3dd5d9b20a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 34/40] fix: partial reduction expands grouping sets a second
 time

---
 .../partial_reduce_below_network_shuffles.rs  | 40 ++-----------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..c3e885b 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -5,8 +5,7 @@ use datafusion::common::DataFusionError;
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::config::ConfigOptions;
 use datafusion::physical_expr::Partitioning;
-use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
-use datafusion::physical_plan::expressions::Column;
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 use std::sync::Arc;
@@ -47,40 +46,9 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
-        // Group-by columns in the Partial output schema appear at indices 0..N-1.
-        let partial_reduce_group_by = {
-            let orig = agg.group_expr();
-            let exprs = orig
-                .expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            let null_exprs = orig
-                .null_expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            PhysicalGroupBy::new(
-                exprs,
-                null_exprs,
-                orig.groups().to_vec(),
-                orig.has_grouping_set(),
-            )
-        };
+        // Group-by columns in the Partial output schema appear at indices 0..N-1, followed by the
+        // id of the grouping set if there are several ones: those are already expanded there.
+        let partial_reduce_group_by = agg.group_expr().as_final();
 
         // PartialReduce wraps the existing RepartitionExec, running on
         // hash-partitioned data where same keys are already in the same partition.
-- 
2.43.0


From 7ef7e21acb8587738f638ef6d1e280481eda9412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:50 +0000
Subject: [PATCH 35/40] fix: window functions partitioned by constants fail
 when crossing a network boundary

---
 .../inject_network_boundaries.rs              | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 19ad598..f3ed245 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -450,29 +450,24 @@ fn restore_lost_ordering(
     else {
         return Ok(new_child);
     };
-    for requirement in &alternatives {
-        let eq_properties = new_child.equivalence_properties();
-        if eq_properties.ordering_satisfy_requirement(requirement.clone())? {
-            return Ok(new_child);
-        }
+    // The first alternative is the strongest one: nodes like window functions only get along with
+    // the other ones if the columns that those leave out are known to be constant.
+    let requirement = OrderingRequirements::Hard(alternatives).into_single();
+    let eq_properties = new_child.equivalence_properties();
+    if eq_properties.ordering_satisfy_requirement(requirement.clone())? {
+        return Ok(new_child);
     }
     // The nodes above might rely on more than what `plan` needs, so prefer the lost ordering.
     let ordering = plan.children()[i]
         .output_ordering()
         .filter(|ordering| {
-            alternatives.iter().any(|requirement| {
-                ordering.len() >= requirement.len()
-                    && ordering.iter().zip(requirement.iter()).all(|(e, r)| {
-                        e.expr.eq(&r.expr) && r.options.is_none_or(|options| options == e.options)
-                    })
-            })
+            ordering.len() >= requirement.len()
+                && ordering.iter().zip(requirement.iter()).all(|(e, r)| {
+                    e.expr.eq(&r.expr) && r.options.is_none_or(|options| options == e.options)
+                })
         })
         .cloned()
-        .unwrap_or_else(|| {
-            OrderingRequirements::Hard(alternatives)
-                .into_single()
-                .into()
-        });
+        .unwrap_or_else(|| requirement.into());
     let task_count = nb_ctx.task_count(&new_child)?;
     let sort = SortExec::new(ordering, new_child).with_preserve_partitioning(true);
     Ok(nb_ctx.plan_with_task_count(Arc::new(sort), task_count))
-- 
2.43.0


From c0bb420df1148378fe4c05115ab28e28580ef91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:17 +0000
Subject: [PATCH 36/40] fix: fail the work unit feeds of a task when its
 coordinator channel breaks

A worker took the end of the coordinator channel for the end of its work unit feeds, even if the
channel broke before all the work units were received. Once a worker has nothing left to report
(e.g. if metrics are not collected), the coordinator does not notice that, so the query succeeded
without the rows of the lost work units.
---
 src/worker/impl_coordinator_channel.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 5a5852d..1ed79ac 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -130,7 +130,15 @@ impl Worker {
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
             let mut stream = stream.map_ok(set_work_unit_received_time);
-            while let Some(Ok(msg)) = stream.next().await {
+            let mut channel_failure = None;
+            while let Some(msg) = stream.next().await {
+                let msg = match msg {
+                    Ok(msg) => msg,
+                    Err(err) => {
+                        channel_failure = Some(err);
+                        break;
+                    }
+                };
                 match msg {
                     CoordinatorToWorkerMsg::WorkUnitBatch(work_unit_batch) => {
                         let Some(work_unit_senders) = work_unit_senders.as_mut() else {
@@ -163,6 +171,17 @@ impl Worker {
                 }
             }
 
+            // The channel is over, but not the feeds: the remaining work units are never going to be
+            // received, and the receiver sides cannot take that for an EOS.
+            if let Some(work_unit_senders) = work_unit_senders {
+                let err = Arc::new(channel_failure.unwrap_or_else(|| {
+                    exec_datafusion_err!("The coordinator channel ended before its work unit feeds")
+                }));
+                for tx in work_unit_senders.values() {
+                    let _ = tx.send(Err(DataFusionError::Shared(Arc::clone(&err))));
+                }
+            }
+
             let metrics_tx = task_data.metrics_tx.lock().unwrap().take();
             if let Some(Ok(plan)) = task_data.final_plan.get() {
                 let d_ctx = DistributedTaskContext {
-- 
2.43.0


From 4cfb83746caa481e1fdde28984210685a98defbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:48 +0000
Subject: [PATCH 37/40] fix: decode Avro errors that were sent over the wire

---
 src/protocol/grpc/errors/arrow_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/arrow_error.rs b/src/protocol/grpc/errors/arrow_error.rs
index b78a950..01e4904 100644
--- a/src/protocol/grpc/errors/arrow_error.rs
+++ b/src/protocol/grpc/errors/arrow_error.rs
@@ -8,7 +8,7 @@ pub struct ArrowErrorProto {
     pub ctx: Option<String>,
     #[prost(
         oneof = "ArrowErrorInnerProto",
-        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
+        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21"
     )]
     pub inner: Option<ArrowErrorInnerProto>,
 }
-- 
2.43.0


From dd35f720fb46031603307de769cd5aa939542292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:49 +0000
Subject: [PATCH 38/40] fix: keep the kind of every IO error over the wire

---
 src/protocol/grpc/errors/io_error.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol/grpc/errors/io_error.rs b/src/protocol/grpc/errors/io_error.rs
index 863e84b..21c925e 100644
--- a/src/protocol/grpc/errors/io_error.rs
+++ b/src/protocol/grpc/errors/io_error.rs
@@ -51,6 +51,9 @@ impl IoErrorProto {
                 ErrorKind::UnexpectedEof => 33,
                 ErrorKind::OutOfMemory => 34,
                 ErrorKind::Other => 35,
+                ErrorKind::QuotaExceeded => 36,
+                ErrorKind::CrossesDevices => 37,
+                ErrorKind::InvalidFilename => 38,
                 _ => -1,
             },
             err: err.to_string(),
@@ -95,6 +98,9 @@ impl IoErrorProto {
             33 => ErrorKind::UnexpectedEof,
             34 => ErrorKind::OutOfMemory,
             35 => ErrorKind::Other,
+            36 => ErrorKind::QuotaExceeded,
+            37 => ErrorKind::CrossesDevices,
+            38 => ErrorKind::InvalidFilename,
             _ => ErrorKind::Other,
         };
         (
-- 
2.43.0


From 748ee03df383c9f77597c2ab28cf61877847f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 39/40] fix: keep what is not implemented in object store
 errors over the wire

---
 src/protocol/grpc/errors/objectstore_error.rs | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/protocol/grpc/errors/objectstore_error.rs b/src/protocol/grpc/errors/objectstore_error.rs
index 933cf16..d55e0ec 100644
--- a/src/protocol/grpc/errors/objectstore_error.rs
+++ b/src/protocol/grpc/errors/objectstore_error.rs
@@ -2,7 +2,7 @@
 pub struct ObjectStoreErrorProto {
     #[prost(
         oneof = "ObjectStoreErrorInnerProto",
-        tags = "1,2,3,4,5,6,7,8,9,10,11,12"
+        tags = "1,2,3,4,5,6,7,8,10,11,12,13"
     )]
     pub inner: Option<ObjectStoreErrorInnerProto>,
 }
@@ -25,14 +25,15 @@ pub enum ObjectStoreErrorInnerProto {
     Precondition(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "8")]
     NotModified(ObjectStoreSourcePathErrorProto),
-    #[prost(message, tag = "9")]
-    NotImplemented(bool),
     #[prost(message, tag = "10")]
     PermissionDenied(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "11")]
     Unauthenticated(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "12")]
     UnknownConfigurationKey(ObjectStoreConfigurationKeyErrorProto),
+    // Tag 9 carried this error without its content.
+    #[prost(message, tag = "13")]
+    NotImplemented(ObjectStoreNotImplementedErrorProto),
 }
 
 #[derive(Clone, PartialEq, ::prost::Message)]
@@ -65,6 +66,14 @@ pub struct ObjectStoreConfigurationKeyErrorProto {
     store: String,
 }
 
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct ObjectStoreNotImplementedErrorProto {
+    #[prost(string, tag = "1")]
+    operation: String,
+    #[prost(string, tag = "2")]
+    implementer: String,
+}
+
 impl ObjectStoreErrorProto {
     pub fn from_object_store_error(err: &object_store::Error) -> Self {
         match err {
@@ -130,10 +139,15 @@ impl ObjectStoreErrorProto {
                 )),
             },
             object_store::Error::NotImplemented {
-                operation: _,
-                implementer: _,
+                operation,
+                implementer,
             } => ObjectStoreErrorProto {
-                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(true)),
+                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(
+                    ObjectStoreNotImplementedErrorProto {
+                        operation: operation.to_string(),
+                        implementer: implementer.to_string(),
+                    },
+                )),
             },
             object_store::Error::PermissionDenied { path, source } => ObjectStoreErrorProto {
                 inner: Some(ObjectStoreErrorInnerProto::PermissionDenied(
@@ -213,10 +227,10 @@ impl ObjectStoreErrorProto {
                 path: msg.path.clone(),
                 source: msg.source.clone().into(),
             },
-            ObjectStoreErrorInnerProto::NotImplemented(_msg) => {
+            ObjectStoreErrorInnerProto::NotImplemented(msg) => {
                 object_store::Error::NotImplemented {
-                    operation: "unknown_operation".to_string(),
-                    implementer: "unknown_implementer".to_string(),
+                    operation: msg.operation.clone(),
+                    implementer: msg.implementer.clone(),
                 }
             }
             ObjectStoreErrorInnerProto::PermissionDenied(msg) => {
-- 
2.43.0


From 9ba6ef14834497d7dcba09507f1ba0b4d1a259b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:08 +0000
Subject: [PATCH 40/40] fix: keep errors with long messages within the headers
 of a response

---
 src/protocol/grpc/errors/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/protocol/grpc/errors/mod.rs b/src/protocol/grpc/errors/mod.rs
index b940d7c..7befbab 100644
--- a/src/protocol/grpc/errors/mod.rs
+++ b/src/protocol/grpc/errors/mod.rs
@@ -16,14 +16,29 @@ mod parquet_error;
 mod parser_error;
 mod schema_error;
 
+/// The details of a [tonic::Status] travel base64 encoded in the headers of a response, for which
+/// HTTP/2 clients accept 16KB by default. Bigger ones do not reach the other side at all, or
+/// break the whole connection.
+const MAX_ENCODED_ERROR_BYTES: usize = 8 * 1024;
+
 /// Encodes a [DataFusionError] into a [tonic::Status] error. The produced error is suitable
 /// to be sent over the wire and decoded by the receiving end, recovering the original
 /// [DataFusionError] across a network boundary with [tonic_status_to_datafusion_error].
+///
+/// Errors that do not fit in the headers of a response are sent as execution errors with the
+/// beginning of their message.
 pub fn datafusion_error_to_tonic_status(err: impl Borrow<DataFusionError>) -> tonic::Status {
-    let err = DataFusionErrorProto::from_datafusion_error(err.borrow());
-    let err = err.encode_to_vec();
+    let err = err.borrow();
+    let mut encoded = DataFusionErrorProto::from_datafusion_error(err).encode_to_vec();
+    if encoded.len() > MAX_ENCODED_ERROR_BYTES {
+        let mut msg = err.to_string();
+        msg.truncate(msg.floor_char_boundary(MAX_ENCODED_ERROR_BYTES / 2));
+        msg.push_str("... (truncated)");
+        let err = DataFusionError::Execution(msg);
+        encoded = DataFusionErrorProto::from_datafusion_error(&err).encode_to_vec();
+    }
 
-    tonic::Status::with_details(tonic::Code::Internal, "DataFusionError", err.into())
+    tonic::Status::with_details(tonic::Code::Internal, "DataFusionError", encoded.into())
 }
 
 /// Decodes a [DataFusionError] from a [tonic::Status] error. If the provided [tonic::Status]
-- 
2.43.0

