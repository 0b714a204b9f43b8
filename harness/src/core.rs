//! Scenario registry, event log, scripted leaves, taps, logging/faulting worker channels, clusters.
use async_trait::async_trait;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
use datafusion::common::{DataFusionError, Result, Statistics, exec_err, internal_err};
use datafusion::execution::{SendableRecordBatchStream, SessionState, SessionStateBuilder, TaskContext};
use datafusion::physical_expr::{EquivalenceProperties, LexOrdering, Partitioning, PhysicalExpr, PhysicalSortExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion_distributed::{BytesMetricExt, GaugeMetricExt, LatencyMetricExt};
use datafusion::physical_plan::metrics::{ExecutionPlanMetricsSet, MetricBuilder, MetricsSet};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties, StatisticsArgs};
use datafusion::common::stats::Precision;
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::stream::BoxStream;
use futures::{Stream, StreamExt, TryStreamExt};
use http::HeaderMap;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Formatter;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, LazyLock, Mutex};
use std::task::{Context, Poll};
use tokio::sync::watch;
use url::Url;
use uuid::Uuid;

pub type Row = Vec<Option<i64>>;

#[derive(Clone, Debug)]
pub enum Item {
    Batch(Vec<Row>),
    /// a batch of n rows that all have the same value in every column
    Big(usize, i64),
    Err(String),
    /// the partition cannot even be executed
    ExecErr(String),
    /// the same, with a panic
    ExecPanic(String),
    Panic(String),
    /// waits until the named gate counter reaches the given value
    Gate(String, u64),
    Sleep(u64),
    Yield,
    Forever,
}

pub fn rows_of(v: &Value) -> Vec<Row> {
    v.as_array()
        .map(|a| a.iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_i64()).collect()).collect())
        .unwrap_or_default()
}

pub fn item_of(v: &Value) -> Item {
    if v.is_array() {
        return Item::Batch(rows_of(v));
    }
    if let Some(n) = v.get("big") { return Item::Big(n.as_u64().unwrap() as usize, v["v"].as_i64().unwrap()); }
    if let Some(m) = v.get("err") { return Item::Err(m.as_str().unwrap().to_string()); }
    if let Some(m) = v.get("xerr") { return Item::ExecErr(m.as_str().unwrap().to_string()); }
    if let Some(m) = v.get("xpanic") { return Item::ExecPanic(m.as_str().unwrap().to_string()); }
    if let Some(m) = v.get("panic") { return Item::Panic(m.as_str().unwrap().to_string()); }
    if let Some(m) = v.get("gate") { return Item::Gate(m.as_str().unwrap().to_string(), v["n"].as_u64().unwrap_or(1)); }
    if let Some(m) = v.get("sleep") { return Item::Sleep(m.as_u64().unwrap()); }
    if v.get("yield").is_some() { return Item::Yield; }
    Item::Forever
}

#[derive(Clone, Debug)]
pub struct LeafSpec {
    pub name: String,
    /// column type letters: i = Int64, s = Utf8, d = Dictionary(Int32,Utf8), v = Utf8View
    pub cols: Vec<(String, char)>,
    /// items of every partition of the unsplit leaf
    pub parts: Vec<Vec<Item>>,
    /// explicit splits: task count -> task -> partition -> items (otherwise dealt by `place`)
    pub splits: BTreeMap<usize, Vec<Vec<Vec<Item>>>>,
    pub place: String,
    /// "d3" / "m2" / "" (no declaration)
    pub count: String,
    pub stats: String,
    pub sort: Option<usize>,
    /// accepts a row limit
    pub limits: bool,
    /// partitions per variant when split by `place`
    pub split_parts: usize,
    /// fed by work units; units read per feed (-1: all) and the level of gate "h" the reader waits for
    pub wuf: bool,
    pub take: Vec<i64>,
    pub hold: Vec<u64>,
    /// a user split with this many slices whatever the number of tasks; the last one has one more partition
    pub vary: Option<usize>,
    pub uneven: bool,
}

impl LeafSpec {
    pub fn parse(v: &Value) -> Self {
        let cols = v["cols"].as_array().map(|a| a.iter().map(|c| {
            let s = c.as_str().unwrap();
            match s.split_once(':') { Some((n, t)) => (n.to_string(), t.chars().next().unwrap()), None => (s.to_string(), 'i') }
        }).collect()).unwrap_or_else(|| vec![("a".to_string(), 'i')]);
        let parts: Vec<Vec<Item>> = v["parts"].as_array().map(|a| a.iter().map(|p| p.as_array().unwrap().iter().map(item_of).collect()).collect()).unwrap_or_default();
        let mut splits = BTreeMap::new();
        if let Some(o) = v["splits"].as_object() {
            for (k, x) in o {
                splits.insert(k.parse().unwrap(), x.as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(item_of).collect()).collect()).collect());
            }
        }
        let n = parts.len().max(1);
        Self {
            name: v["name"].as_str().unwrap_or("t").to_string(), cols, splits,
            place: v["place"].as_str().unwrap_or("rr").to_string(),
            count: v["count"].as_str().unwrap_or("").to_string(),
            stats: v["stats"].as_str().unwrap_or("").to_string(),
            sort: v["sort"].as_u64().map(|x| x as usize),
            wuf: v["wuf"].as_bool().unwrap_or(false),
            take: v["take"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default(),
            hold: v["hold"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(),
            vary: v["vary"].as_u64().map(|x| x as usize),
            uneven: v["uneven"].as_bool().unwrap_or(false),
            limits: v["limits"].as_bool().unwrap_or(false),
            split_parts: v["split_parts"].as_u64().map(|x| x as usize).unwrap_or(n),
            parts: if parts.is_empty() { vec![vec![]] } else { parts },
        }
    }
    pub fn schema(&self) -> SchemaRef {
        Arc::new(Schema::new(self.cols.iter().map(|(n, t)| Field::new(n, dtype(*t), true)).collect::<Vec<_>>()))
    }
    /// items of (task of n, partition); n == 0 is the unsplit leaf
    pub fn items(&self, n: usize, task: usize, p: usize) -> Vec<Item> {
        if n == 0 { return self.parts.get(p).cloned().unwrap_or_default(); }
        if let Some(s) = self.splits.get(&n) { return s[task].get(p).cloned().unwrap_or_default(); }
        let mut out = vec![];
        let mut j = 0usize;
        for (op, part) in self.parts.iter().enumerate() {
            for (k, it) in part.iter().enumerate() {
                let slots = n * self.split_parts;
                let slot = match self.place.as_str() {
                    "first" => op % self.split_parts,
                    "last" => (n - 1) * self.split_parts + op % self.split_parts,
                    "block" => (op + k * 3) % slots,
                    "rev" => slots - 1 - (j % slots),
                    _ => (j % n) * self.split_parts + (op % self.split_parts),
                };
                if slot == task * self.split_parts + p { out.push(it.clone()); }
                j += 1;
            }
        }
        out
    }
    pub fn nparts(&self, n: usize) -> usize {
        if n == 0 { self.parts.len() } else if let Some(s) = self.splits.get(&n) { s[0].len() } else { self.split_parts }
    }
}

pub fn dtype(t: char) -> DataType {
    match t {
        's' => DataType::Utf8,
        'd' => DataType::Dictionary(Box::new(DataType::Int32), Box::new(DataType::Utf8)),
        'v' => DataType::Utf8View,
        _ => DataType::Int64,
    }
}

/// Value n of a string column is "v<n>" padded so that view arrays use out-of-line buffers.
pub fn sval(n: i64) -> String { format!("v{n}_padding_padding") }
pub fn sparse(s: &str) -> i64 { s[1..].split('_').next().unwrap().parse().unwrap() }

pub fn to_batch(schema: &SchemaRef, rows: &[Row]) -> RecordBatch {
    let mut cols: Vec<ArrayRef> = vec![];
    for (i, f) in schema.fields().iter().enumerate() {
        let it = rows.iter().map(|r| r[i]);
        let a: ArrayRef = match f.data_type() {
            DataType::Int64 => Arc::new(Int64Array::from_iter(it)),
            DataType::Utf8 => Arc::new(StringArray::from_iter(it.map(|x| x.map(sval)))),
            DataType::Utf8View => Arc::new(StringViewArray::from_iter(it.map(|x| x.map(sval)))),
            DataType::Dictionary(_, _) => {
                let v: Vec<Option<String>> = it.map(|x| x.map(sval)).collect();
                Arc::new(v.iter().map(|x| x.as_deref()).collect::<DictionaryArray<Int32Type>>())
            }
            t => panic!("type {t}"),
        };
        cols.push(a);
    }
    let opts = datafusion::arrow::record_batch::RecordBatchOptions::new().with_row_count(Some(rows.len()));
    RecordBatch::try_new_with_options(Arc::clone(schema), cols, &opts).unwrap()
}

pub fn from_batch(b: &RecordBatch) -> Vec<Row> {
    let mut out: Vec<Row> = vec![vec![]; b.num_rows()];
    for c in b.columns() {
        let vals: Vec<Option<i64>> = match c.data_type() {
            DataType::Int64 => c.as_any().downcast_ref::<Int64Array>().unwrap().iter().collect(),
            DataType::UInt64 => c.as_any().downcast_ref::<UInt64Array>().unwrap().iter().map(|x| x.map(|y| y as i64)).collect(),
            DataType::Int32 => c.as_any().downcast_ref::<Int32Array>().unwrap().iter().map(|x| x.map(|y| y as i64)).collect(),
            DataType::Boolean => c.as_any().downcast_ref::<BooleanArray>().unwrap().iter().map(|x| x.map(|y| y as i64)).collect(),
            DataType::Float64 => c.as_any().downcast_ref::<Float64Array>().unwrap().iter().map(|x| x.map(|y| (y * 1000.0).round() as i64)).collect(),
            DataType::Utf8 => c.as_any().downcast_ref::<StringArray>().unwrap().iter().map(|x| x.map(sparse)).collect(),
            DataType::Utf8View => c.as_any().downcast_ref::<StringViewArray>().unwrap().iter().map(|x| x.map(sparse)).collect(),
            DataType::Dictionary(_, _) => {
                let u = datafusion::arrow::compute::cast(c, &DataType::Utf8).unwrap();
                u.as_any().downcast_ref::<StringArray>().unwrap().iter().map(|x| x.map(sparse)).collect()
            }
            DataType::Null => vec![None; b.num_rows()],
            t => panic!("from_batch type {t}"),
        };
        for (r, v) in out.iter_mut().zip(vals) { r.push(v); }
    }
    out
}

pub fn rows_json(rows: &[Row]) -> Value { json!(rows) }

// ---------------------------------------------------------------- scenario
#[derive(Clone, Debug, Default)]
pub struct Fault {
    /// set_plan | exec | exec_stream | w2c | c2w | session | handler
    pub at: String,
    /// skip the first n matching events
    pub nth: usize,
    /// for streams: number of messages let through first
    pub after: usize,
    /// err | panic | eof | hang | drop
    pub kind: String,
    pub msg: String,
}

pub struct Scenario {
    pub id: u64,
    pub leaves: Vec<LeafSpec>,
    pub log: Mutex<Vec<Value>>,
    pub gates: Mutex<HashMap<String, watch::Sender<u64>>>,
    pub queries: Mutex<Vec<Uuid>>,
    pub faults: Vec<Fault>,
    pub fault_hits: Mutex<HashMap<usize, usize>>,
    pub fired: AtomicUsize,
    pub live_streams: AtomicI64,
    pub live_leaves: AtomicI64,
    pub open_c2w: AtomicI64,
    pub verbose: bool,
    /// plans sent to workers are logged with their structure
    pub trees: std::sync::atomic::AtomicBool,
    /// Ready-made plan nodes by name
    pub nodes: Mutex<HashMap<String, Arc<dyn ExecutionPlan>>>,
    pub ext: std::sync::atomic::AtomicBool,
    /// taps register a metric of every kind
    pub probe: bool,
    /// by how many seconds the coordinator's clock is ahead of the workers'
    pub skew: AtomicI64,
    /// log the first answer of a worker to every request
    pub got: bool,
}

static REG: LazyLock<Mutex<HashMap<u64, Arc<Scenario>>>> = LazyLock::new(Default::default);
static NEXT: AtomicU64 = AtomicU64::new(1);

pub fn scenario(id: u64) -> Result<Arc<Scenario>> {
    match REG.lock().unwrap().get(&id) {
        Some(s) => Ok(Arc::clone(s)),
        None => internal_err!("scenario {id} is gone"),
    }
}

impl Scenario {
    pub fn new(leaves: Vec<LeafSpec>, faults: Vec<Fault>, verbose: bool) -> Arc<Self> {
        Self::build(leaves, faults, verbose, false, false)
    }
    fn build(leaves: Vec<LeafSpec>, faults: Vec<Fault>, verbose: bool, probe: bool, got: bool) -> Arc<Self> {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        let s = Arc::new(Self {
            id, leaves, log: Default::default(), gates: Default::default(), queries: Default::default(), faults,
            fault_hits: Default::default(), fired: AtomicUsize::new(0), live_streams: AtomicI64::new(0), live_leaves: AtomicI64::new(0),
            open_c2w: AtomicI64::new(0), verbose, trees: Default::default(), nodes: Default::default(), ext: Default::default(), probe, got, skew: Default::default(),
        });
        REG.lock().unwrap().insert(id, Arc::clone(&s));
        s
    }
    pub fn from_case(c: &Value) -> Arc<Self> {
        let leaves = c["leaves"].as_array().map(|a| a.iter().map(LeafSpec::parse).collect()).unwrap_or_default();
        let faults = c["faults"].as_array().map(|a| a.iter().map(|f| Fault {
            at: f["at"].as_str().unwrap().to_string(),
            nth: f["nth"].as_u64().unwrap_or(0) as usize,
            after: f["after"].as_u64().unwrap_or(0) as usize,
            kind: f["kind"].as_str().unwrap_or("err").to_string(),
            msg: f["msg"].as_str().unwrap_or("injected-fault").to_string(),
        }).collect()).unwrap_or_default();
        let s = Self::build(leaves, faults, c["verbose"].as_bool().unwrap_or(false), c["probe"].as_bool().unwrap_or(false), c["mx"].as_bool().unwrap_or(false));
        s.skew.store(c["skew"].as_i64().unwrap_or(0), Ordering::Relaxed);
        s
    }
    pub fn forget(&self) { REG.lock().unwrap().remove(&self.id); }
    pub fn ev(&self, v: Value) { self.log.lock().unwrap().push(v); }
    pub fn take_log(&self) -> Vec<Value> { std::mem::take(&mut *self.log.lock().unwrap()) }
    pub fn gate_set(&self, name: &str, n: u64) {
        let mut g = self.gates.lock().unwrap();
        let tx = g.entry(name.to_string()).or_insert_with(|| watch::channel(0).0);
        tx.send_modify(|v| *v = n.max(*v));
    }
    pub fn gate_add(&self, name: &str) {
        let mut g = self.gates.lock().unwrap();
        let tx = g.entry(name.to_string()).or_insert_with(|| watch::channel(0).0);
        tx.send_modify(|v| *v += 1);
    }
    pub fn gate_rx(&self, name: &str) -> watch::Receiver<u64> {
        let mut g = self.gates.lock().unwrap();
        g.entry(name.to_string()).or_insert_with(|| watch::channel(0).0).subscribe()
    }
    pub fn qidx(&self, q: Uuid) -> usize {
        let mut qs = self.queries.lock().unwrap();
        if let Some(i) = qs.iter().position(|x| *x == q) { return i; }
        qs.push(q);
        qs.len() - 1
    }
    /// The fault that hits this occurrence of `at`, if any.
    pub fn fault(&self, at: &str) -> Option<Fault> {
        let mut hits = self.fault_hits.lock().unwrap();
        for (i, f) in self.faults.iter().enumerate() {
            if f.at == at {
                let h = hits.entry(i).or_insert(0);
                *h += 1;
                if *h == f.nth + 1 { return Some(f.clone()); }
            }
        }
        None
    }
    pub fn fire(&self, f: &Fault) { self.fired.fetch_add(1, Ordering::SeqCst); self.ev(json!({"ev":"fault","at":f.at,"kind":f.kind,"msg":f.msg})); }
}

// ---------------------------------------------------------------- scripted leaf
#[derive(Debug)]
pub struct ScriptExec {
    pub sid: u64,
    pub leaf: usize,
    /// 0 = unsplit; otherwise the number of variants this is one of
    pub of: usize,
    pub task: usize,
    pub proj: Option<Vec<usize>>,
    pub fetch: Option<usize>,
    pub props: Arc<PlanProperties>,
    pub metrics: ExecutionPlanMetricsSet,
    pub stats: String,
    pub rows: usize,
    sc: Option<Arc<Scenario>>,
}

impl std::fmt::Debug for Scenario {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "Scenario({})", self.id) }
}

impl Drop for ScriptExec {
    fn drop(&mut self) {
        if let Some(s) = &self.sc { s.live_leaves.fetch_sub(1, Ordering::SeqCst); }
    }
}

impl ScriptExec {
    pub fn new(sc: &Arc<Scenario>, leaf: usize, of: usize, task: usize, proj: Option<Vec<usize>>) -> Arc<Self> { Self::limited(sc, leaf, of, task, proj, None) }
    pub fn limited(sc: &Arc<Scenario>, leaf: usize, of: usize, task: usize, proj: Option<Vec<usize>>, fetch: Option<usize>) -> Arc<Self> {
        let spec = &sc.leaves[leaf];
        let full = spec.schema();
        let schema = match &proj { Some(p) => Arc::new(full.project(p).unwrap()), None => full };
        let n = spec.nparts(of);
        let mut eq = EquivalenceProperties::new(Arc::clone(&schema));
        if let Some(s) = spec.sort {
            let pos = match &proj { Some(p) => p.iter().position(|x| *x == s), None => Some(s) };
            if let Some(pos) = pos {
                let e: Arc<dyn PhysicalExpr> = Arc::new(datafusion::physical_expr::expressions::Column::new(schema.field(pos).name(), pos));
                if let Some(o) = LexOrdering::new(vec![PhysicalSortExpr::new_default(e)]) { eq.add_ordering(o); }
            }
        }
        let props = Arc::new(PlanProperties::new(eq, Partitioning::UnknownPartitioning(n), EmissionType::Incremental, Boundedness::Bounded));
        let rows = spec.parts.iter().flatten().map(|i| match i { Item::Batch(r) => r.len(), Item::Big(n, _) => *n, _ => 0 }).sum();
        sc.live_leaves.fetch_add(1, Ordering::SeqCst);
        Arc::new(Self { sid: sc.id, leaf, of, task, proj, fetch, props, metrics: Default::default(), stats: spec.stats.clone(), rows, sc: Some(Arc::clone(sc)) })
    }
}

impl DisplayAs for ScriptExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result { write!(f, "ScriptExec: leaf={} of={} task={}", self.leaf, self.of, self.task) }
}

pub struct LiveGuard(pub Arc<Scenario>, pub Value, pub bool);
impl Drop for LiveGuard {
    fn drop(&mut self) {
        self.0.live_streams.fetch_sub(1, Ordering::SeqCst);
        if !self.2 && self.0.verbose { self.0.ev(json!({"ev":"leaf_drop","at":self.1})); }
    }
}

impl ExecutionPlan for ScriptExec {
    fn name(&self) -> &str { "ScriptExec" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn metrics(&self) -> Option<MetricsSet> { Some(self.metrics.clone_inner()) }
    fn with_fetch(&self, limit: Option<usize>) -> Option<Arc<dyn ExecutionPlan>> {
        let sc = scenario(self.sid).ok()?;
        if !sc.leaves[self.leaf].limits { return None; }
        Some(ScriptExec::limited(&sc, self.leaf, self.of, self.task, self.proj.clone(), limit))
    }
    fn fetch(&self) -> Option<usize> { self.fetch }
    fn statistics_from_inputs(&self, _: &[Arc<Statistics>], args: &StatisticsArgs) -> Result<Arc<Statistics>> {
        let mut st = Statistics::new_unknown(&self.schema());
        if args.partition().is_none() {
            match self.stats.as_str() {
                "exact" => { st.num_rows = Precision::Exact(self.rows); st.total_byte_size = Precision::Exact(self.rows * 8 * self.schema().fields().len()); }
                "inexact" => { st.num_rows = Precision::Inexact(self.rows); st.total_byte_size = Precision::Inexact(self.rows * 8 * self.schema().fields().len()); }
                "small" => { st.num_rows = Precision::Inexact(1); st.total_byte_size = Precision::Inexact(8); }
                "huge" => { st.num_rows = Precision::Inexact(100_000_000); st.total_byte_size = Precision::Inexact(8_000_000_000); }
                _ => {}
            }
        }
        Ok(Arc::new(st))
    }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let sc = scenario(self.sid)?;
        let d = DistributedTaskContext::from_ctx(&ctx);
        sc.ev(json!({"ev":"leaf","leaf":self.leaf,"of":self.of,"slice":self.task,"p":partition,"ti":d.task_index,"tc":d.task_count,"task":phys(&ctx),"w":at_worker(&ctx)}));
        let items = sc.leaves[self.leaf].items(self.of, self.task, partition);
        if let Some(Item::ExecErr(m)) = items.first() { sc.ev(json!({"ev":"fault","at":"leaf","msg":m,"text":if m.starts_with('{') { crate::errs::of(m).to_string() } else { String::new() }})); return Err(crate::errs::of(m)); }
        if let Some(Item::ExecPanic(m)) = items.first() { sc.ev(json!({"ev":"fault","at":"leaf","msg":m})); panic!("{m}"); }
        let schema = self.schema();
        let full = sc.leaves[self.leaf].schema();
        let proj = self.proj.clone();
        let fetch = self.fetch.unwrap_or(usize::MAX);
        let out_rows = MetricBuilder::new(&self.metrics).output_rows(partition);
        let polled = MetricBuilder::new(&self.metrics).counter("script_batches", partition);
        sc.live_streams.fetch_add(1, Ordering::SeqCst);
        let at = json!([self.leaf, self.of, self.task, partition]);
        let guard = LiveGuard(Arc::clone(&sc), at.clone(), false);
        let s2 = Arc::clone(&schema);
        let st = futures::stream::unfold((items.into_iter(), guard, 0usize), move |(mut it, mut guard, mut sent)| {
            let sc = Arc::clone(&sc);
            let (full, s2, proj, out_rows, polled, at) = (Arc::clone(&full), Arc::clone(&s2), proj.clone(), out_rows.clone(), polled.clone(), at.clone());
            async move {
                loop {
                    if sent >= fetch { guard.2 = true; return None; }
                    match it.next() {
                        Some(Item::Big(n, v)) => {
                            let b = big_batch(&full, n, v);
                            sent += n;
                            out_rows.add(n);
                            polled.add(1);
                            if sc.verbose { sc.ev(json!({"ev":"leaf_batch","at":at,"rows":[],"n":n})); }
                            return Some((Ok(b), (it, guard, sent)));
                        }
                        None => { guard.2 = true; if sc.verbose { sc.ev(json!({"ev":"leaf_end","at":at})); } return None; }
                        Some(Item::Batch(mut rows)) => {
                            rows.truncate(fetch - sent);
                            sent += rows.len();
                            let mut b = to_batch(&full, &rows);
                            if let Some(p) = &proj { b = b.project(p).unwrap(); }
                            let b = RecordBatch::try_new_with_options(Arc::clone(&s2), b.columns().to_vec(),
                                &datafusion::arrow::record_batch::RecordBatchOptions::new().with_row_count(Some(b.num_rows()))).unwrap();
                            out_rows.add(b.num_rows());
                            polled.add(1);
                            if sc.verbose { sc.ev(json!({"ev":"leaf_batch","at":at,"rows":if rows.len() > 64 { vec![] } else { rows }})); }
                            return Some((Ok(b), (it, guard, sent)));
                        }
                        Some(Item::Err(m)) => { sc.ev(json!({"ev":"fault","at":"leaf","msg":m,"text":if m.starts_with('{') { crate::errs::of(&m).to_string() } else { String::new() }})); if sc.verbose { sc.ev(json!({"ev":"leaf_err","at":at})); } return Some((Err(crate::errs::of(&m)), (it, guard, sent))); }
                        Some(Item::ExecErr(m)) | Some(Item::ExecPanic(m)) | Some(Item::Panic(m)) => { sc.ev(json!({"ev":"fault","at":"leaf","msg":m})); panic!("{}", m) }
                        Some(Item::Gate(g, n)) => { let mut rx = sc.gate_rx(&g); let _ = rx.wait_for(|v| *v >= n).await; }
                        Some(Item::Sleep(ms)) => tokio::time::sleep(std::time::Duration::from_millis(ms)).await,
                        Some(Item::Yield) => tokio::task::yield_now().await,
                        Some(Item::Forever) => { futures::future::pending::<()>().await }
                    }
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema, st)))
    }
}

/// n rows: v in the first column, incompressible noise in the others (Int64 columns only, no projection, no limit)
pub fn big_batch(schema: &SchemaRef, n: usize, v: i64) -> RecordBatch {
    static NOISE: LazyLock<Int64Array> = LazyLock::new(|| { let mut x = 88172645463325252u64; (0..1 << 15).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; Some(x as i64) }).collect() });
    let cols = (0..schema.fields().len()).map(|i| if i == 0 { Arc::new(Int64Array::from_value(v, n)) as ArrayRef } else { Arc::new(NOISE.slice(v as usize % 100, n)) as ArrayRef }).collect();
    RecordBatch::try_new(Arc::clone(schema), cols).unwrap()
}

// ---------------------------------------------------------------- tap
#[derive(Debug)]
pub struct TapExec {
    pub sid: u64,
    pub label: String,
    pub input: Arc<dyn ExecutionPlan>,
    /// "u": makes row ids (second column) unique per task; "[mN|dN][/seed]": declared task count; with a seed, partitions are opened after varying delays
    pub mode: String,
    pub props: Arc<PlanProperties>,
    pub metrics: ExecutionPlanMetricsSet,
}
impl TapExec {
    pub fn new(sid: u64, label: &str, mode: &str, input: Arc<dyn ExecutionPlan>) -> Arc<Self> {
        let props = Arc::clone(input.properties());
        Arc::new(Self { sid, label: label.to_string(), mode: mode.to_string(), input, props, metrics: Default::default() })
    }
}
impl DisplayAs for TapExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result { write!(f, "TapExec: {}", self.label) }
}
struct TapStream { sc: Arc<Scenario>, key: Value, uniq: Option<i64>, inner: SendableRecordBatchStream, done: bool, rows: datafusion::physical_plan::metrics::Count }
impl Stream for TapStream {
    type Item = Result<RecordBatch>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut r = self.inner.poll_next_unpin(cx);
        if let (Some(t), Poll::Ready(Some(Ok(b)))) = (self.uniq, &r) {
            let mut cols = b.columns().to_vec();
            cols[1] = Arc::new(cols[1].as_any().downcast_ref::<Int64Array>().unwrap().iter().map(|x| x.map(|x| x * 10 + t)).collect::<Int64Array>());
            r = Poll::Ready(Some(Ok(RecordBatch::try_new(b.schema(), cols).unwrap())));
        }
        if let Poll::Ready(x) = &r {
            match x {
                None => { self.done = true; self.sc.ev(json!({"ev":"tap_end","at":self.key})) }
                Some(Ok(b)) => { self.rows.add(b.num_rows()); self.sc.ev(json!({"ev":"tap_rows","at":self.key,"rows":from_batch(b)})) }
                Some(Err(e)) => { self.done = true; self.sc.ev(if self.sc.verbose { json!({"ev":"tap_err","at":self.key,"msg":e.to_string(),"err":crate::errs::show(e)}) } else { json!({"ev":"tap_err","at":self.key,"msg":e.to_string()}) }) }
            }
        }
        r
    }
}
impl Drop for TapStream { fn drop(&mut self) { if !self.done { self.sc.ev(json!({"ev":"tap_drop","at":self.key})); } } }
impl ExecutionPlan for TapExec {
    fn name(&self) -> &str { "TapExec" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![&self.input] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn maintains_input_order(&self) -> Vec<bool> { vec![true] }
    fn benefits_from_input_partitioning(&self) -> Vec<bool> { vec![false] }
    fn metrics(&self) -> Option<MetricsSet> { Some(self.metrics.clone_inner()) }
    fn with_new_children(self: Arc<Self>, mut c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(TapExec::new(self.sid, &self.label, &self.mode, c.remove(0)))
    }
    fn execute(&self, p: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let sc = scenario(self.sid)?;
        let d = DistributedTaskContext::from_ctx(&ctx);
        let key = json!([self.label, d.task_index, d.task_count, p]);
        sc.ev(json!({"ev":"tap","at":key,"w":at_worker(&ctx),"task":phys(&ctx)}));
        if sc.ext.load(Ordering::Relaxed) && p == 0 { sc.ev(json!({"ev":"view","at":key,"w":at_worker(&ctx),"task":phys(&ctx),"view":crate::d_ext::view(ctx.session_config())})); }
        let rows = MetricBuilder::new(&self.metrics).output_rows(p);
        if sc.probe {
            // one metric of every kind, with a value that only this instance reports
            let v = 1000 * (phys(&ctx) as usize + 1) + 7 * p + 1;
            let d = std::time::Duration::from_nanos(v as u64);
            let mb = || MetricBuilder::new(&self.metrics).with_partition(p);
            mb().counter("x_count", p).add(v);
            mb().gauge("x_gauge", p).add(v);
            mb().subset_time("x_time", p).add_duration(d);
            let m = mb().max_gauge("x_maxg"); m.set_max(v / 2); m.set_max(v); m.set_max(1);
            let m = mb().bytes_counter("x_bytes"); m.add_bytes(v / 2); m.add_bytes(v - v / 2);
            let m = mb().min_latency("x_min"); m.add_duration(2 * d); m.add_duration(d); m.add_duration(3 * d);
            let m = mb().max_latency("x_max"); m.add_duration(d / 2); m.add_duration(d); m.add_duration(d / 3);
            let m = mb().first_latency("x_first"); m.add_duration(d); m.add_duration(2 * d); m.add_duration(d / 2);
            let a = mb().avg_latency("x_avg"); a.add_duration(d); a.add_duration(3 * d);
            mb().p50_latency("x_p50").add_duration(d);
            mb().p75_latency("x_p75").add_duration(d);
            mb().p95_latency("x_p95").add_duration(d);
            mb().p99_latency("x_p99").add_duration(d);
            mb().spill_count(p).add(v); mb().spilled_bytes(p).add(v); mb().spilled_rows(p).add(v);
            mb().output_bytes(p).add(v); mb().output_batches(p).add(v); mb().mem_used(p).add(v);
            mb().peak_memory_usage("x_peak", p).add(v);
            mb().elapsed_compute(p).add_duration(d);
            let at = datafusion::arrow::array::temporal_conversions::timestamp_ns_to_datetime(v as i64).unwrap().and_utc();
            mb().start_timestamp(p).set(at); mb().end_timestamp(p).set(at);
            let x = mb().pruning_metrics("x_prune", p); x.add_pruned(v); x.add_matched(2 * v); x.add_fully_matched(3 * v);
            use datafusion::physical_plan::metrics::RatioMergeStrategy as S;
            for (i, (s, raw)) in [(S::AddPartAddTotal, true), (S::AddPartSetTotal, false), (S::SetPartAddTotal, true)].into_iter().enumerate() {
                let x = datafusion::physical_plan::metrics::RatioMetrics::new().with_merge_strategy(s).with_display_raw_values(raw);
                x.set_part(v); x.set_total(2 * v);
                mb().build(datafusion::physical_plan::metrics::MetricValue::Ratio { name: format!("x_ratio{i}").into(), ratio_metrics: x });
            }
            mb().with_new_label("x_of", v.to_string()).counter("x_label", p).add(v);
        }
        let inner = match self.mode.split_once('/').and_then(|(_, s)| s.parse::<u64>().ok()) {
            None => self.input.execute(p, ctx)?,
            Some(seed) => {
                let ms = (seed.wrapping_mul(2654435761).wrapping_add(d.task_index as u64 * 7919 + p as u64 * 104729) >> 3) % 7;
                let input = Arc::clone(&self.input);
                let st = futures::stream::once(async move { tokio::time::sleep(std::time::Duration::from_millis(ms)).await; input.execute(p, ctx) }).try_flatten();
                Box::pin(RecordBatchStreamAdapter::new(self.schema(), st)) as SendableRecordBatchStream
            }
        };
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema(), TapStream { sc, key, uniq: (self.mode == "u").then_some(d.task_index as i64), inner, done: false, rows })))
    }
}

// ---------------------------------------------------------------- codec
#[derive(Debug)]
pub struct Codec;
impl PhysicalExtensionCodec for Codec {
    fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let Ok(v) = serde_json::from_slice::<Value>(buf) else { return internal_err!("not ours") };
        match v["k"].as_str() {
            Some("script") => {
                let sc = scenario(v["sid"].as_u64().unwrap())?;
                if let Some(f) = sc.fault("decode") { sc.fire(&f); if f.kind == "panic" { panic!("{}", f.msg); } return exec_err!("{}", f.msg); }
                let proj = v["proj"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
                Ok(ScriptExec::limited(&sc, v["leaf"].as_u64().unwrap() as usize, v["of"].as_u64().unwrap() as usize, v["task"].as_u64().unwrap() as usize, proj, v["fetch"].as_u64().map(|x| x as usize)))
            }
            Some("tap") => Ok(TapExec::new(v["sid"].as_u64().unwrap(), v["label"].as_str().unwrap(), v["mode"].as_str().unwrap(), Arc::clone(&inputs[0]))),
            Some("wuf") => crate::wuf::decode(&v),
            _ => internal_err!("not ours"),
        }
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let v = if let Some(s) = node.downcast_ref::<ScriptExec>() {
            if let Ok(sc) = scenario(s.sid) && let Some(f) = sc.fault("encode") { sc.fire(&f); if f.kind == "panic" { panic!("{}", f.msg); } return exec_err!("{}", f.msg); }
            json!({"k":"script","sid":s.sid,"leaf":s.leaf,"of":s.of,"task":s.task,"proj":s.proj,"fetch":s.fetch})
        } else if let Some(t) = node.downcast_ref::<TapExec>() {
            json!({"k":"tap","sid":t.sid,"label":t.label,"mode":t.mode})
        } else if let Some(v) = crate::wuf::encode(&node) {
            if let Ok(sc) = scenario(v["sid"].as_u64().unwrap()) && let Some(f) = sc.fault("encode") { sc.fire(&f); return exec_err!("{}", f.msg); }
            v
        } else {
            return internal_err!("not ours: {}", node.name());
        };
        buf.extend_from_slice(&serde_json::to_vec(&v).unwrap());
        Ok(())
    }
}

// ---------------------------------------------------------------- cluster
#[derive(Clone)]
pub struct Cluster {
    pub sc: Arc<Scenario>,
    pub inner: Arc<ClusterInner>,
}
pub struct ClusterInner {
    pub n: usize,
    pub grpc: bool,
    pub workers: Mutex<Vec<Worker>>,
    pub chans: Mutex<Vec<grpc::BoxCloneSyncChannel>>,
    /// cuts the connection to a worker (only when built with `with_proxy`)
    pub cut: Mutex<Vec<tokio::task::AbortHandle>>,
    /// settings applied to every worker session
    pub session_hook: Mutex<Option<WorkerHook>>,
}
pub type WorkerHook = Arc<dyn Fn(SessionStateBuilder, &HeaderMap, usize) -> Result<SessionStateBuilder> + Send + Sync>;

/// Set in every worker's session: which worker this is.
pub struct WorkerIdx(pub i64);
/// Set in every task's session: which task of its stage this is (branches of unions see other numbers).
pub struct PhysTask(pub i64);
pub fn phys(ctx: &TaskContext) -> i64 { ctx.session_config().get_extension::<PhysTask>().map(|w| w.0).unwrap_or(0) }
pub fn at_worker(ctx: &TaskContext) -> i64 { ctx.session_config().get_extension::<WorkerIdx>().map(|w| w.0).unwrap_or(-1) }

pub fn wurl(i: usize) -> Url { Url::parse(&format!("http://w{i}.test:50051")).unwrap() }
pub fn widx(u: &Url) -> i64 { u.host_str().and_then(|h| h.strip_prefix('w')).and_then(|h| h.split('.').next()).and_then(|h| h.parse().ok()).unwrap_or(-9) }

impl Cluster {
    pub fn new(sc: &Arc<Scenario>, n: usize, grpc: bool) -> Self { Self::with(sc, n, grpc, |w| w, 1 << 20) }
    pub fn with(sc: &Arc<Scenario>, n: usize, grpc: bool, conf: impl Fn(Worker) -> Worker, duplex: usize) -> Self { Self::with_proxy(sc, n, grpc, conf, duplex, false) }
    pub fn with_proxy(sc: &Arc<Scenario>, n: usize, grpc: bool, conf: impl Fn(Worker) -> Worker, duplex: usize, proxy: bool) -> Self {
        let cl = Self { sc: Arc::clone(sc), inner: Arc::new(ClusterInner { n, grpc, workers: Default::default(), chans: Default::default(), cut: Default::default(), session_hook: Default::default() }) };
        for i in 0..n {
            let weak = Arc::downgrade(&cl.inner);
            let sc2 = Arc::clone(sc);
            let sb = move |q: WorkerQueryContext| {
                let weak = weak.clone();
                let sc = Arc::clone(&sc2);
                async move {
                    if let Some(f) = sc.fault("session") { sc.fire(&f); if f.kind == "panic" { panic!("{}", f.msg); } return exec_err!("{}", f.msg); }
                    if let Some(g) = q.headers.get("x-gate").and_then(|v| v.to_str().ok()) {
                        let mut rx = sc.gate_rx(g);
                        let _ = rx.wait_for(|v| *v > 0).await;
                    }
                    let Some(inner) = weak.upgrade() else { return internal_err!("cluster gone") };
                    let cl = Cluster { sc: Arc::clone(&sc), inner };
                    let hook = cl.inner.session_hook.lock().unwrap().clone();
                    let mut b = q.builder;
                    let conf = b.config().get_or_insert_default();
                    conf.set_extension(Arc::new(WorkerIdx(i as i64)));
                    if let Some(d) = conf.get_extension::<DistributedTaskContext>() { conf.set_extension(Arc::new(PhysTask(d.task_index as i64))); }
                    let mut b = b.with_distributed_channel_resolver(Resolver { cl, from: i as i64 }).with_distributed_user_codec(Codec);
                    if let Some(h) = hook { b = h(b, &q.headers, i)?; }
                    Ok(b.build())
                }
            };
            let w = conf(Worker::from_session_builder(sb));
            cl.inner.workers.lock().unwrap().push(w.clone());
            if grpc {
                let (client, mut far) = tokio::io::duplex(duplex);
                let server = if proxy {
                    let (mut near, server) = tokio::io::duplex(duplex);
                    let h = tokio::spawn(async move { let _ = tokio::io::copy_bidirectional(&mut far, &mut near).await; });
                    cl.inner.cut.lock().unwrap().push(h.abort_handle());
                    server
                } else { far };
                let mut client = Some(client);
                let channel = tonic::transport::Endpoint::try_from("http://localhost:50051").unwrap()
                    .connect_with_connector_lazy(tower::service_fn(move |_| {
                        let c = client.take();
                        async move { c.map(hyper_util::rt::TokioIo::new).ok_or_else(|| std::io::Error::other("gone")) }
                    }));
                tokio::spawn(async move {
                    let _ = tonic::transport::Server::builder().add_service(w.into_worker_server())
                        .serve_with_incoming(tokio_stream::once(Ok::<_, std::io::Error>(server))).await;
                });
                cl.inner.chans.lock().unwrap().push(grpc::BoxCloneSyncChannel::new(channel));
            }
        }
        cl
    }
    pub fn raw_channel(&self, i: usize) -> Box<dyn WorkerChannel> {
        if self.inner.grpc { grpc::create_worker_client(self.inner.chans.lock().unwrap()[i].clone()) }
        else { Box::new(Direct(self.inner.workers.lock().unwrap()[i].clone())) }
    }
    pub fn worker(&self, i: usize) -> Worker { self.inner.workers.lock().unwrap()[i].clone() }
    pub fn resolver(&self, from: i64) -> Resolver { Resolver { cl: self.clone(), from } }
    pub async fn tasks_running(&self) -> usize {
        let ws = self.inner.workers.lock().unwrap().clone();
        let mut n = 0;
        for w in ws { n += w.tasks_running().await; }
        n
    }
}

impl WorkerResolver for Cluster {
    fn get_urls(&self) -> Result<Vec<Url>> { Ok((0..self.inner.n).map(wurl).collect()) }
}

/// Third transport: plain calls into the worker, the way an embedder without gRPC would do it.
struct Direct(Worker);
#[async_trait]
impl WorkerChannel for Direct {
    async fn coordinator_channel(&mut self, headers: HeaderMap, mut r: SetPlanRequest, c2w: BoxStream<'static, CoordinatorToWorkerMsg>, _: ExecutionPlanMetricsSet, t: &Arc<TaskContext>) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        let e = r.plan.encode(t)?;
        r.plan = MaybeEncoded::Encoded(e);
        self.0.coordinator_channel(headers, r, c2w.map(Ok).boxed()).await
    }
    async fn execute_task(&mut self, _: HeaderMap, r: ExecuteTaskRequest, _: ExecutionPlanMetricsSet, _: &Arc<TaskContext>) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        Ok(self.0.execute_task(r).await?.0.into_iter().map(|s| s.boxed()).collect())
    }
    async fn get_worker_info(&mut self, _: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> { Ok(GetWorkerInfoResponse { version: self.0.version().to_string() }) }
}

pub struct Resolver { pub cl: Cluster, pub from: i64 }
#[async_trait]
impl ChannelResolver for Resolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>> {
        let i = widx(url);
        if i < 0 || i as usize >= self.cl.inner.n { return exec_err!("unknown worker {url}"); }
        if let Some(f) = self.cl.sc.fault("connect") { self.cl.sc.fire(&f); return exec_err!("{}", f.msg); }
        Ok(Box::new(LogChannel { cl: self.cl.clone(), from: self.from, to: i, inner: self.cl.raw_channel(i as usize) }))
    }
}

pub struct LogChannel { cl: Cluster, from: i64, to: i64, inner: Box<dyn WorkerChannel> }

pub fn head_json(h: &ProducerHead) -> Value {
    match h {
        ProducerHead::None => json!({"k":"none","n":0}),
        ProducerHead::RepartitionExec { partitioning } => match partitioning {
            MaybeEncoded::Decoded(p) => json!({"k":"hash","n":p.partition_count()}),
            _ => json!({"k":"hash","n":-1}),
        },
        ProducerHead::BroadcastExec { output_partitions } => json!({"k":"bcast","n":output_partitions}),
    }
}

pub fn leaves_of(p: &Arc<dyn ExecutionPlan>) -> Vec<Value> {
    let mut v = vec![];
    let _ = p.apply(|n| {
        if let Some(s) = n.downcast_ref::<ScriptExec>() { v.push(json!({"leaf":s.leaf,"of":s.of,"slice":s.task})); }
        Ok(TreeNodeRecursion::Continue)
    });
    v
}

pub fn taps_of(p: &Arc<dyn ExecutionPlan>) -> Vec<String> {
    let mut v = vec![];
    let _ = p.apply(|n| {
        if let Some(s) = n.downcast_ref::<TapExec>() { v.push(s.label.clone()); }
        Ok(TreeNodeRecursion::Continue)
    });
    v
}

struct CountGuard(Arc<Scenario>);
impl Drop for CountGuard { fn drop(&mut self) { self.0.open_c2w.fetch_sub(1, Ordering::SeqCst); } }

#[async_trait]
impl WorkerChannel for LogChannel {
    async fn coordinator_channel(&mut self, headers: HeaderMap, r: SetPlanRequest, c2w: BoxStream<'static, CoordinatorToWorkerMsg>, m: ExecutionPlanMetricsSet, t: &Arc<TaskContext>) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        let sc = Arc::clone(&self.cl.sc);
        let q = sc.qidx(r.task_key.query_id);
        let (stage, task, tc) = (r.task_key.stage_id, r.task_key.task_number, r.task_count);
        let nparts = match &r.plan { MaybeEncoded::Decoded(p) => p.properties().partitioning.partition_count() as i64, _ => -1 };
        let feeds: Vec<usize> = r.work_unit_feed_declarations.iter().map(|d| d.partitions).collect();
        let taps = match &r.plan { MaybeEncoded::Decoded(p) => taps_of(p), _ => vec![] };
        sc.ev(json!({"ev":"set_plan","taps":taps,"q":q,"stage":stage,"task":task,"tc":tc,"from":self.from,"to":self.to,"target":widx(&r.target_worker_url),"parts":nparts,"feeds":feeds}));
        if sc.trees.load(Ordering::Relaxed) && let MaybeEncoded::Decoded(p) = &r.plan { sc.ev(json!({"ev":"tree","stage":stage,"task":task,"tree":crate::tree::tree(p)})); }
        let f = sc.fault("set_plan");
        if let Some(f) = &f { sc.fire(f); if f.kind == "err" { return exec_err!("{}", f.msg); } if f.kind == "hang" { futures::future::pending::<()>().await; } }
        sc.open_c2w.fetch_add(1, Ordering::SeqCst);
        let (s2, g) = (Arc::clone(&sc), CountGuard(Arc::clone(&sc)));
        // "chan": the whole channel breaks once some messages went through, the worker just sees its end
        let chan = sc.fault("chan");
        let (broke_tx, broke_rx) = tokio::sync::oneshot::channel::<()>();
        let mut broke_tx = chan.is_some().then_some(broke_tx);
        let cf = sc.fault("c2w").or(chan.clone());
        let mut seen = 0usize;
        let c2w = c2w.inspect(move |msg| {
            let _ = &g;
            match msg {
                CoordinatorToWorkerMsg::WorkUnitBatch(b) => s2.ev(json!({"ev":"wu","q":q,"stage":stage,"task":task,"n":b.batch.len()})),
                CoordinatorToWorkerMsg::WorkUnitEos => s2.ev(json!({"ev":"wu_eos","q":q,"stage":stage,"task":task})),
            }
        });
        let skew = sc.skew.load(Ordering::Relaxed) * 1_000_000_000;
        let c2w = c2w.map(move |mut m| {
            if let CoordinatorToWorkerMsg::WorkUnitBatch(b) = &mut m && skew != 0 {
                for u in &mut b.batch {
                    u.created_timestamp_unix_nanos = (u.created_timestamp_unix_nanos as i64 + skew) as usize;
                    u.sent_timestamp_unix_nanos = (u.sent_timestamp_unix_nanos as i64 + skew) as usize;
                }
            }
            m
        });
        let s5 = Arc::clone(&sc);
        let c2w = c2w.take_while(move |_| {
            let cut = matches!(&cf, Some(f) if seen >= f.after);
            if cut && let Some(f) = &cf { s5.fire(f); if let Some(tx) = broke_tx.take() { let _ = tx.send(()); } }
            seen += 1;
            futures::future::ready(!cut)
        });
        // from here on the worker may take the task for finished
        let s6 = Arc::clone(&sc);
        let c2w = c2w.chain(futures::stream::once(async move { if s6.got { s6.ev(json!({"ev":"c2w_end","stage":stage,"task":task})); } }).filter_map(|_| async { None })).boxed();
        let out = self.inner.coordinator_channel(headers, r, c2w, m, t).await;
        let s3 = Arc::clone(&sc);
        match out {
            Err(e) => { sc.ev(json!({"ev":"set_plan_err","q":q,"stage":stage,"task":task,"msg":e.to_string()})); Err(e) }
            Ok(s) => {
                sc.ev(json!({"ev":"set_plan_ok","q":q,"stage":stage,"task":task}));
                let wf = sc.fault("w2c");
                let s = s.inspect(move |msg| match msg {
                    Ok(WorkerToCoordinatorMsg::TaskMetrics(m)) => s3.ev(json!({"ev":"metrics","q":q,"stage":stage,"task":task,"nodes":m.pre_order_plan_metrics.len()})),
                    Ok(WorkerToCoordinatorMsg::LoadInfo(l)) => s3.ev(json!({"ev":"load","q":q,"stage":stage,"task":task,"p":l.partition,"rows":l.rows_ready,"eos":l.reached_eos})),
                    Ok(WorkerToCoordinatorMsg::LoadInfoEos) => s3.ev(json!({"ev":"load_eos","q":q,"stage":stage,"task":task})),
                    Err(e) => s3.ev(json!({"ev":"w2c_err","q":q,"stage":stage,"task":task,"msg":e.to_string()})),
                });
                let s4 = Arc::clone(&sc);
                let s = s.chain(futures::stream::once(async move { s4.ev(json!({"ev":"w2c_end","q":q,"stage":stage,"task":task})); None }).filter_map(|x: Option<Result<WorkerToCoordinatorMsg>>| async { x }));
                let s = match chan {
                    None => s.boxed(),
                    Some(f) => {
                        // None: the stream came to its end before anything broke
                        let broke = futures::FutureExt::shared(async move { if broke_rx.await.is_err() { futures::future::pending::<()>().await } });
                        let b2 = broke.clone();
                        let head = s.map(Some).chain(futures::stream::once(async { None::<Result<WorkerToCoordinatorMsg>> })).take_until(broke);
                        let tail = futures::stream::once(async move { futures::FutureExt::now_or_never(b2).map(|()| Err(DataFusionError::Execution(f.msg.clone()))) });
                        head.chain(tail).take_while(|m| futures::future::ready(m.is_some())).filter_map(|m| async { m }).boxed()
                    }
                };
                Ok(faulty(sc, s, wf))
            }
        }
    }
    async fn execute_task(&mut self, headers: HeaderMap, r: ExecuteTaskRequest, m: ExecutionPlanMetricsSet, t: &Arc<TaskContext>) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let sc = Arc::clone(&self.cl.sc);
        let q = sc.qidx(r.task_key.query_id);
        let (stage, task) = (r.task_key.stage_id, r.task_key.task_number);
        let (p0, p1) = (r.target_partition_start, r.target_partition_end);
        let d = DistributedTaskContext::from_ctx(t);
        sc.ev(json!({"ev":"exec","q":q,"stage":stage,"task":task,"from":self.from,"to":self.to,"p0":p0,"p1":p1,"head":head_json(&r.producer_head),"ti":d.task_index,"tc":d.task_count}));
        if sc.ext.load(Ordering::Relaxed) { sc.ev(json!({"ev":"hdr","q":q,"from":self.from,"hdr":crate::d_ext::header_view(&headers)})); }
        if let Some(f) = sc.fault("exec") { sc.fire(&f); if f.kind == "hang" { futures::future::pending::<()>().await; }
            // the worker has started, its answer gets lost
            if f.kind == "lost" { let _ = self.inner.execute_task(headers, r, m, t).await?; }
            return exec_err!("{}", f.msg); }
        let from = self.from;
        match self.inner.execute_task(headers, r, m, t).await {
            Err(e) => { sc.ev(json!({"ev":"exec_err","q":q,"stage":stage,"task":task,"from":from,"msg":e.to_string()})); Err(e) }
            Ok(v) => {
                sc.ev(json!({"ev":"exec_ok","q":q,"stage":stage,"task":task,"from":from,"n":v.len()}));
                Ok(v.into_iter().map(|s| { let f = sc.fault("exec_stream"); let s = if sc.got { answered(Arc::clone(&sc), s, stage, task) } else { s }; faulty(Arc::clone(&sc), s, f) }).collect())
            }
        }
    }
    async fn get_worker_info(&mut self, r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> { self.inner.get_worker_info(r).await }
}

/// Logs that the worker has answered a request: the first thing that comes out of one of its streams.
fn answered(sc: Arc<Scenario>, s: BoxStream<'static, Result<RecordBatch>>, stage: usize, task: usize) -> BoxStream<'static, Result<RecordBatch>> {
    let mut first = true;
    let mut s = s;
    futures::stream::poll_fn(move |cx| {
        let r = s.poll_next_unpin(cx);
        if let std::task::Poll::Ready(x) = &r && !matches!(x, Some(Err(_))) && std::mem::take(&mut first) { sc.ev(json!({"ev":"exec_got","stage":stage,"task":task})); }
        r
    }).boxed()
}

fn faulty<T: Send + 'static>(sc: Arc<Scenario>, s: BoxStream<'static, Result<T>>, f: Option<Fault>) -> BoxStream<'static, Result<T>> {
    let Some(f) = f else { return s };
    let after = f.after;
    let head = s.take(after);
    let tail = futures::stream::once(async move {
        sc.fire(&f);
        match f.kind.as_str() {
            "panic" => panic!("{}", f.msg),
            "eof" => None,
            "hang" => { futures::future::pending::<()>().await; None }
            _ => Some(Err(DataFusionError::Execution(f.msg.clone()))),
        }
    }).filter_map(|x| async { x });
    head.chain(tail).boxed()
}

// ---------------------------------------------------------------- sessions
pub fn coordinator_builder(cl: &Cluster, cfg: &Value, planner: Option<Arc<dyn datafusion::execution::context::QueryPlanner + Send + Sync>>) -> Result<SessionStateBuilder> {
    let mut sc = datafusion::prelude::SessionConfig::new().with_target_partitions(cfg["parts"].as_u64().unwrap_or(2) as usize);
    if let Some(b) = cfg["batch"].as_u64() { sc = sc.with_batch_size(b as usize); }
    sc = sc.with_information_schema(false);
    if let Some(o) = cfg["opts"].as_object() {
        for (k, v) in o { sc.options_mut().set(k, v.as_str().unwrap())?; }
    }
    let g = |k: &str, d: bool| cfg[k].as_bool().unwrap_or(d);
    let mut b = SessionStateBuilder::new().with_default_features().with_config(sc);
    if let Some(p) = planner { b = b.with_query_planner(p); }
    let mut b = b.with_distributed_planner()
        .with_distributed_worker_resolver(cl.clone())
        .with_distributed_channel_resolver(cl.resolver(-1))
        .with_distributed_user_codec(Codec)
        .with_distributed_work_unit_feed(crate::wuf::getter)
        .with_distributed_metrics_collection(g("metrics", false))?
        .with_distributed_children_isolator_unions(g("ciu", true))?
        .with_distributed_broadcast_joins(g("bcast", true))?
        .with_distributed_partial_reduce(g("preduce", false))?
        .with_distributed_dynamic_task_count(g("dyn", false))?
        .with_distributed_cardinality_effect_task_scale_factor(cfg["factor"].as_f64().unwrap_or(1.0))?
        .with_distributed_max_tasks_per_stage(cfg["max_tasks"].as_u64().unwrap_or(0) as usize)?
        .with_distributed_desired_task_count_handler(LeafCount)
        .with_distributed_scale_up_leaf_node_handler(leaf_scale_up);
    if let Some(x) = cfg["shuffle_batch"].as_u64() { b = b.with_distributed_shuffle_batch_size(x as usize)?; }
    if let Some(x) = cfg["budget"].as_u64() { b = b.with_distributed_worker_connection_buffer_budget_bytes(x as usize)?; }
    if let Some(x) = cfg["dyn_bytes"].as_u64() { b = b.with_distributed_dynamic_bytes_per_partition(x as usize)?; }
    if let Some(x) = cfg["file_bytes"].as_u64() { b = b.with_distributed_file_scan_config_bytes_per_partition(x as usize)?; }
    if let Some(x) = cfg["compression"].as_str() {
        b = b.with_distributed_compression(match x { "zstd" => Some(CompressionType::ZSTD), "lz4" => Some(CompressionType::LZ4_FRAME), _ => None })?;
    }
    if let Some(i) = cfg["local"].as_u64() { b = b.with_distributed_local_worker_context(cl.worker(i as usize).to_local_worker_context(wurl(i as usize))); }
    if let Some(a) = cfg["route"].as_array() {
        // an explicit list of workers, used cyclically
        let list: Vec<usize> = a.iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let sc = Arc::clone(&cl.sc);
        b = b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent| {
            if let Some(f) = sc.fault("route") { sc.fire(&f); if f.kind == "panic" { panic!("{}", f.msg); } return Some(exec_err!("{}", f.msg)); }
            Some(Ok(RouteTasksEventResponse::new((0..ev.task_count).map(|i| wurl(list[i % list.len()])).collect::<Vec<_>>())))
        });
    }
    Ok(b)
}

pub fn coordinator(cl: &Cluster, cfg: &Value) -> Result<SessionState> { Ok(coordinator_builder(cl, cfg, None)?.build()) }

pub struct LeafCount;
#[async_trait]
impl DesiredTaskCountHandler for LeafCount {
    async fn handle(&self, ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
        if let Some(t) = ev.plan.downcast_ref::<TapExec>() {
            let mode = t.mode.split('/').next().unwrap_or("");
            if let Some(c) = mode.strip_prefix('m') { return Some(Ok(DesiredTaskCountEventResponse::maximum(c.parse().unwrap()))); }
            if let Some(c) = mode.strip_prefix('d') { return Some(Ok(DesiredTaskCountEventResponse::desired(c.parse().unwrap()))); }
            return None;
        }
        let (sid, leaf) = match ev.plan.downcast_ref::<ScriptExec>() { Some(s) => (s.sid, s.leaf), None => { let w = ev.plan.downcast_ref::<crate::wuf::WufExec>()?; (w.sid, w.leaf) } };
        let sc = scenario(sid).ok()?;
        let c = &sc.leaves[leaf].count;
        if let Some(n) = c.strip_prefix('m') { return Some(Ok(DesiredTaskCountEventResponse::maximum(n.parse().unwrap()))); }
        if let Some(n) = c.strip_prefix('d') { return Some(Ok(DesiredTaskCountEventResponse::desired(n.parse().unwrap()))); }
        None
    }
}

pub fn leaf_scale_up(ev: ScaleUpLeafNodeEvent) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    let s = ev.plan.downcast_ref::<ScriptExec>()?;
    let sc = match scenario(s.sid) { Ok(s) => s, Err(e) => return Some(Err(e)) };
    let n = sc.leaves[s.leaf].vary.unwrap_or(ev.task_count);
    let mut variants: Vec<Arc<dyn ExecutionPlan>> = (0..n).map(|t| ScriptExec::limited(&sc, s.leaf, n, t, s.proj.clone(), s.fetch) as _).collect();
    if sc.leaves[s.leaf].uneven && let Some(l) = variants.pop() {
        let p = l.properties().partitioning.partition_count();
        variants.push(Arc::new(datafusion::physical_plan::repartition::RepartitionExec::try_new(l, datafusion::physical_expr::Partitioning::RoundRobinBatch(p + 1)).unwrap()));
    }
    Some(DistributedLeafExec::try_new(Arc::clone(ev.plan), variants).map(|d| ScaleUpLeafNodeEventResponse::new(Arc::new(d))))
}

/// A table whose scan is a scripted leaf.
#[derive(Debug)]
pub struct ScriptTable { pub sc: Arc<Scenario>, pub leaf: usize }
#[async_trait]
impl datafusion::catalog::TableProvider for ScriptTable {
    fn schema(&self) -> SchemaRef { self.sc.leaves[self.leaf].schema() }
    fn table_type(&self) -> datafusion::datasource::TableType { datafusion::datasource::TableType::Base }
    async fn scan(&self, _: &dyn datafusion::catalog::Session, proj: Option<&Vec<usize>>, _: &[datafusion::prelude::Expr], _: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        if self.sc.leaves[self.leaf].wuf { return crate::wuf::table(&self.sc, self.leaf, proj.cloned()); }
        Ok(ScriptExec::new(&self.sc, self.leaf, 0, 0, proj.cloned()))
    }
}

/// A table whose scan is an arbitrary physical plan (used to feed hand-shaped plans to the planner).
pub struct PlanTable { pub plan: Arc<dyn ExecutionPlan> }
impl std::fmt::Debug for PlanTable { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "PlanTable") } }
#[async_trait]
impl datafusion::catalog::TableProvider for PlanTable {
    fn schema(&self) -> SchemaRef { self.plan.schema() }
    fn table_type(&self) -> datafusion::datasource::TableType { datafusion::datasource::TableType::Base }
    async fn scan(&self, _: &dyn datafusion::catalog::Session, _: Option<&Vec<usize>>, _: &[datafusion::prelude::Expr], _: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::clone(&self.plan))
    }
}

/// Virtual-time quiescence: on a paused clock this returns only when nothing else can run.
pub async fn settle() { tokio::time::sleep(std::time::Duration::from_millis(1)).await; }

pub fn all_leaf_rows(sc: &Scenario) -> usize { sc.leaves.iter().flat_map(|l| l.parts.iter().flatten()).map(|i| if let Item::Batch(r) = i { r.len() } else { 0 }).sum() }
