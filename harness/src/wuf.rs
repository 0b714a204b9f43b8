//! A leaf that reads work units: every unit of a feed is one batch of the leaf's script.
use crate::core::*;
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::arrow::record_batch::{RecordBatch, RecordBatchOptions};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{DataFusionError, Result, exec_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::{ExecutionPlanMetricsSet, MetricsSet};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion_distributed::{DistributedTaskContext, DistributedWorkUnitFeedContext, WorkUnitFeed, WorkUnitFeedProto, WorkUnitFeedProvider};
use futures::StreamExt;
use futures::stream::BoxStream;
use prost::Message;
use serde_json::{Value, json};
use std::fmt::Formatter;
use std::sync::Arc;
use std::sync::atomic::Ordering;

#[derive(Clone, PartialEq, prost::Message)]
pub struct Unit {
    #[prost(uint32, tag = "1")]
    pub leaf: u32,
    #[prost(uint32, tag = "2")]
    pub feed: u32,
    #[prost(uint32, tag = "3")]
    pub seq: u32,
    #[prost(string, tag = "4")]
    pub rows: String,
}

#[derive(Debug, Clone)]
pub struct Feeds { pub sid: u64, pub leaf: usize }
impl WorkUnitFeedProvider for Feeds {
    type WorkUnit = Unit;
    fn feed(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<BoxStream<'static, Result<Unit>>> {
        let sc = scenario(self.sid)?;
        let n = DistributedWorkUnitFeedContext::from_ctx(&ctx).fan_out_tasks;
        let spec = &sc.leaves[self.leaf];
        let p = spec.nparts(n);
        sc.ev(json!({"ev":"feed","leaf":self.leaf,"f":partition,"n":n}));
        let items = spec.items(n, partition / p, partition % p);
        if let Some(Item::ExecErr(m)) = items.first() { sc.ev(json!({"ev":"fault","at":"feed","msg":m,"text":if m.starts_with("{") { crate::errs::of(m).to_string() } else { String::new() }})); return Err(crate::errs::of(m)); }
        if let Some(Item::ExecPanic(m)) = items.first() { sc.ev(json!({"ev":"fault","at":"feed","msg":m})); panic!("{m}"); }
        sc.live_streams.fetch_add(1, Ordering::SeqCst);
        let guard = LiveGuard(Arc::clone(&sc), json!(["feed", self.leaf, partition]), false);
        let leaf = self.leaf;
        Ok(futures::stream::unfold((items.into_iter(), guard, 0u32), move |(mut it, guard, mut seq)| {
            let sc = Arc::clone(&sc);
            async move {
                loop {
                    match it.next() {
                        None => { sc.ev(json!({"ev":"feed_end","leaf":leaf,"f":partition})); return None; }
                        Some(Item::Batch(rows)) => {
                            let u = Unit { leaf: leaf as u32, feed: partition as u32, seq, rows: json!(rows).to_string() };
                            seq += 1;
                            sc.ev(json!({"ev":"feed_put","leaf":leaf,"f":partition,"n":seq}));
                            return Some((Ok(u), (it, guard, seq)));
                        }
                        Some(Item::Err(m)) => { sc.ev(json!({"ev":"fault","at":"feed","msg":m,"text":if m.starts_with("{") { crate::errs::of(&m).to_string() } else { String::new() }})); return Some((Err(crate::errs::of(&m)), (it, guard, seq))); }
                        Some(Item::ExecErr(m)) | Some(Item::ExecPanic(m)) | Some(Item::Panic(m)) => { sc.ev(json!({"ev":"fault","at":"feed","msg":m,"text":if m.starts_with("{") { crate::errs::of(&m).to_string() } else { String::new() }})); panic!("{}", m) }
                        Some(Item::Gate(g, n)) => { let mut rx = sc.gate_rx(&g); let _ = rx.wait_for(|v| *v >= n).await; }
                        Some(Item::Sleep(ms)) => tokio::time::sleep(std::time::Duration::from_millis(ms)).await,
                        Some(Item::Yield) => tokio::task::yield_now().await,
                        Some(Item::Forever) => futures::future::pending::<()>().await,
                        Some(Item::Big(..)) => unreachable!(),
                    }
                }
            }
        }).boxed())
    }
}

#[derive(Debug)]
pub struct WufExec { pub sid: u64, pub leaf: usize, pub proj: Option<Vec<usize>>, pub feed: WorkUnitFeed<Feeds>, props: Arc<PlanProperties>, metrics: ExecutionPlanMetricsSet }

impl WufExec {
    pub fn new(sid: u64, leaf: usize, proj: Option<Vec<usize>>, feed: WorkUnitFeed<Feeds>) -> Result<Arc<Self>> {
        let sc = scenario(sid)?;
        let spec = &sc.leaves[leaf];
        let full = spec.schema();
        let schema: SchemaRef = match &proj { Some(p) => Arc::new(full.project(p)?), None => full };
        let props = Arc::new(PlanProperties::new(EquivalenceProperties::new(schema), Partitioning::UnknownPartitioning(spec.nparts(1)), EmissionType::Incremental, Boundedness::Bounded));
        Ok(Arc::new(Self { sid, leaf, proj, feed, props, metrics: Default::default() }))
    }
}

impl DisplayAs for WufExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result { write!(f, "WufExec: leaf={}", self.leaf) }
}

impl ExecutionPlan for WufExec {
    fn name(&self) -> &str { "WufExec" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn metrics(&self) -> Option<MetricsSet> { Some(self.metrics.clone_inner()) }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let sc = scenario(self.sid)?;
        let d = DistributedTaskContext::from_ctx(&ctx);
        let (leaf, ti, tc) = (self.leaf, d.task_index, d.task_count);
        let spec = &sc.leaves[leaf];
        let f = ti * spec.nparts(1) + partition;
        let take = match spec.take.get(f % spec.take.len().max(1)).copied() {
            None | Some(-1) => usize::MAX,
            // every unit there is
            Some(-2) => spec.items(tc, ti, partition).iter().filter(|i| matches!(i, Item::Batch(_))).count(),
            Some(x) => x as usize,
        };
        let hold = spec.hold.get(f % spec.hold.len().max(1)).copied().unwrap_or(0);
        sc.ev(json!({"ev":"wu_open","leaf":leaf,"ti":ti,"tc":tc,"p":partition,"w":at_worker(&ctx)}));
        let units = self.feed.feed(partition, Arc::clone(&ctx))?;
        let (full, schema, proj) = (spec.schema(), self.schema(), self.proj.clone());
        let s2 = Arc::clone(&schema);
        sc.live_streams.fetch_add(1, Ordering::SeqCst);
        let guard = LiveGuard(Arc::clone(&sc), json!([leaf, tc, ti, partition]), false);
        let st = futures::stream::unfold((units, guard, 0usize), move |(mut units, guard, got)| {
            let (sc, full, s2, proj) = (Arc::clone(&sc), Arc::clone(&full), Arc::clone(&s2), proj.clone());
            async move {
                if got >= take { sc.ev(json!({"ev":"wu_stop","leaf":leaf,"ti":ti,"p":partition})); return None; }
                if hold > 0 { let mut rx = sc.gate_rx("h"); let _ = rx.wait_for(|v| *v >= hold).await; }
                match units.next().await {
                    None => { sc.ev(json!({"ev":"wu_end","leaf":leaf,"ti":ti,"p":partition})); None }
                    Some(Err(e)) => { sc.ev(json!({"ev":"wu_err","leaf":leaf,"ti":ti,"p":partition})); Some((Err(e), (units, guard, got))) }
                    Some(Ok(u)) => {
                        sc.ev(json!({"ev":"wu_get","leaf":leaf,"ti":ti,"p":partition,"u":[u.leaf,u.feed,u.seq]}));
                        let rows = rows_of(&serde_json::from_str::<Value>(&u.rows).unwrap());
                        let mut b = to_batch(&full, &rows);
                        if let Some(p) = &proj { b = b.project(p).unwrap(); }
                        let b = RecordBatch::try_new_with_options(s2, b.columns().to_vec(), &RecordBatchOptions::new().with_row_count(Some(rows.len()))).unwrap();
                        Some((Ok(b), (units, guard, got + 1)))
                    }
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema, st)))
    }
}

pub fn decode(v: &Value) -> Result<Arc<dyn ExecutionPlan>> {
    let sc = scenario(v["sid"].as_u64().unwrap())?;
    if let Some(f) = sc.fault("decode") { sc.fire(&f); return exec_err!("{}", f.msg); }
    let bytes: Vec<u8> = v["feed"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let feed = WorkUnitFeed::from_proto(WorkUnitFeedProto::decode(bytes.as_slice()).map_err(|e| DataFusionError::Execution(e.to_string()))?)?;
    Ok(WufExec::new(sc.id, v["leaf"].as_u64().unwrap() as usize, v["proj"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()), feed)?)
}
pub fn build(sc: &Arc<Scenario>, v: &Value) -> Result<Arc<dyn ExecutionPlan>> {
    table(sc, v["leaf"].as_u64().unwrap() as usize, None)
}
pub fn table(sc: &Arc<Scenario>, leaf: usize, proj: Option<Vec<usize>>) -> Result<Arc<dyn ExecutionPlan>> {
    Ok(WufExec::new(sc.id, leaf, proj, WorkUnitFeed::new(Feeds { sid: sc.id, leaf }))?)
}
pub fn encode(p: &Arc<dyn ExecutionPlan>) -> Option<Value> {
    let w = p.downcast_ref::<WufExec>()?;
    Some(json!({"k":"wuf","sid":w.sid,"leaf":w.leaf,"proj":w.proj,"feed":w.feed.to_proto().encode_to_vec()}))
}
pub fn getter(p: &WufExec) -> Option<&WorkUnitFeed<Feeds>> { Some(&p.feed) }
