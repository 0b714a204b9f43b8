//! What the tasks of a query see of the settings and headers of the session that issued it.
use crate::core::*;
use async_trait::async_trait;
use datafusion::common::{Result, extensions_options};
use datafusion::config::{ConfigEntry, ConfigExtension, ConfigOptions, ExtensionOptions};
use datafusion::execution::context::QueryPlanner;
use datafusion::logical_expr::LogicalPlan;
use datafusion::physical_plan::{ExecutionPlan, SendableRecordBatchStream, execute_stream};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::{DistributedConfig, DistributedExt};
use futures::{FutureExt, StreamExt};
use http::{HeaderMap, HeaderName, HeaderValue};
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::Duration;

extensions_options! {
    pub struct Ea {
        pub flag: bool, default = false
        pub n: usize, default = 7
        pub x: f64, default = 0.5
        pub s: String, default = "def".to_string()
        pub o: Option<String>, default = None
        pub on: Option<usize>, default = None
    }
}
impl ConfigExtension for Ea { const PREFIX: &'static str = "ea"; }

macro_rules! text_ext { ($t:ident, $p:literal, [$(($k:literal, $d:expr)),*]) => {
    #[derive(Debug, Clone)]
    pub struct $t(Vec<(&'static str, Option<String>)>);
    impl Default for $t { fn default() -> Self { Self(vec![$(($k, { let d: Option<&str> = $d; d.map(str::to_string) })),*]) } }
    impl ConfigExtension for $t { const PREFIX: &'static str = $p; }
    impl ExtensionOptions for $t {
        fn as_any(&self) -> &dyn std::any::Any { self }
        fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self }
        fn cloned(&self) -> Box<dyn ExtensionOptions> { Box::new(self.clone()) }
        fn set(&mut self, key: &str, value: &str) -> Result<()> {
            match self.0.iter_mut().find(|(k, _)| *k == key) {
                Some(e) => { e.1 = Some(value.to_string()); Ok(()) }
                None => datafusion::common::config_err!("no option {key} in {}", $p),
            }
        }
        fn entries(&self) -> Vec<ConfigEntry> { self.0.iter().map(|(k, v)| ConfigEntry { key: k.to_string(), value: v.clone(), description: "" }).collect() }
    }
} }
text_ext!(Retry, "retry", [("retry.max", Some("1")), ("max", Some("2")), ("retry.retry", Some("3")), ("gap", None)]);
text_ext!(Mixed, "Mixed", [("TimeOut", Some("10")), ("low", Some("20"))]);
text_ext!(OnlyC, "onlyc", [("k", Some("c"))]);
text_ext!(OnlyW, "onlyw", [("k", Some("w"))]);
text_ext!(Plain, "plain", [("k", Some("p"))]);

/// The headers a worker was given with a plan.
pub struct Seen(pub HeaderMap);

fn latin(b: &[u8]) -> String { b.iter().map(|c| *c as char).collect() }
fn theirs(n: &str) -> bool { n.starts_with("x-datafusion-distributed-config-") || n.starts_with("grpc-") || ["te", "content-type", "user-agent"].contains(&n) }
pub fn header_view(h: &HeaderMap) -> Value {
    let mut m = Map::new();
    for n in h.keys() {
        if theirs(n.as_str()) { continue; }
        m.insert(n.as_str().to_string(), json!(h.get_all(n).iter().map(|v| latin(v.as_bytes())).collect::<Vec<_>>()));
    }
    Value::Object(m)
}

pub fn view(c: &SessionConfig) -> Value {
    let mut m = Map::new();
    for (p, e) in c.options().extensions.iter() {
        for x in e.entries() { m.insert(format!("{p}.{}", x.key), json!(x.value)); }
    }
    json!({"batch": c.batch_size(), "set": m, "hdr": c.get_extension::<Seen>().map(|s| header_view(&s.0))})
}

fn opts(ctx: &SessionContext, f: impl FnOnce(&mut ConfigOptions) -> Result<()>) -> Result<()> { let s = ctx.state_ref(); let mut s = s.write(); f(s.config_mut().options_mut()) }

#[derive(Debug, Default)]
struct Slot(Mutex<Option<Arc<dyn ExecutionPlan>>>);
#[async_trait]
impl QueryPlanner for Slot {
    async fn create_physical_plan(&self, _: &LogicalPlan, _: &dyn datafusion::catalog::Session) -> Result<Arc<dyn ExecutionPlan>> { Ok(self.0.lock().unwrap().clone().unwrap()) }
}

pub async fn run(c: &Value) -> Value {
    let sc = Scenario::from_case(c);
    let r = inner(c, &sc).await;
    sc.forget();
    match r { Ok(v) => v, Err(e) => json!({"err": format!("{e}"), "phase": "setup"}) }
}

fn headers(v: &Value) -> Result<HeaderMap> {
    let mut h = HeaderMap::new();
    for e in v.as_array().unwrap() {
        let n: HeaderName = e[0].as_str().unwrap().parse().map_err(|e| datafusion::error::DataFusionError::External(Box::new(e)))?;
        for x in e[1].as_array().unwrap() {
            let b: Vec<u8> = x.as_str().unwrap().chars().map(|c| c as u8).collect();
            h.append(n.clone(), HeaderValue::from_bytes(&b).map_err(|e| datafusion::error::DataFusionError::External(Box::new(e)))?);
        }
    }
    Ok(h)
}

async fn inner(c: &Value, sc: &Arc<Scenario>) -> Result<Value> {
    let cfg = &c["cfg"];
    sc.ext.store(true, Ordering::Relaxed);
    let cl = Cluster::new(sc, cfg["workers"].as_u64().unwrap_or(2) as usize, cfg["grpc"].as_bool().unwrap_or(false));
    let again = cfg["reinject"].as_bool().unwrap_or(false);
    let hook: WorkerHook = Arc::new(move |mut b, h, _| {
        if again {
            let mut mine = HeaderMap::new();
            for n in h.keys() { if !theirs(n.as_str()) { for v in h.get_all(n) { mine.append(n.clone(), v.clone()); } } }
            b = b.with_distributed_passthrough_headers(mine)?;
        }
        b = b.with_distributed_option_extension_from_headers::<Ea>(h)?.with_distributed_option_extension_from_headers::<Retry>(h)?.with_distributed_option_extension_from_headers::<Mixed>(h)?
            .with_distributed_option_extension_from_headers::<OnlyW>(h)?.with_distributed_option_extension_from_headers::<Plain>(h)?;
        b.config().get_or_insert_default().set_extension(Arc::new(Seen(h.clone())));
        Ok(b)
    });
    *cl.inner.session_hook.lock().unwrap() = Some(hook);
    let mut ss = vec![];
    for s in c["sessions"].as_array().unwrap() {
        let slot = Arc::new(Slot::default());
        let mut b = coordinator_builder(&cl, cfg, Some(Arc::clone(&slot) as _))?;
        if s["given"].as_bool().unwrap_or(false) {
            // the distributed options come with the configuration the session is made from
            let mut conf = b.config().clone().unwrap();
            let d = DistributedConfig::from_config_options(conf.options())?.clone();
            conf = SessionConfig::from(conf.options().as_ref().clone());
            conf.options_mut().extensions.insert(d);
            b = datafusion::execution::SessionStateBuilder::new().with_default_features().with_config(conf).with_query_planner(Arc::clone(&slot) as _);
            b = again_built(b, &cl);
        }
        let ctx = SessionContext::from(b.build());
        for e in s["exts"].as_array().unwrap() { reg(&ctx, e.as_str().unwrap()); }
        ss.push((ctx, slot));
    }
    let mut qs: HashMap<u64, SendableRecordBatchStream> = HashMap::new();
    let calm = || tokio::time::sleep(Duration::from_millis(1));
    for s in c["ops"].as_array().unwrap() {
        let q = s["q"].as_u64().unwrap_or(0);
        let at = || &ss[s["s"].as_u64().unwrap() as usize];
        match s["do"].as_str().unwrap() {
            "reg" => { reg(&at().0, s["ext"].as_str().unwrap()); sc.ev(json!({"ev":"op","op":s,"ok":true})); }
            "set" => {
                let r = opts(&at().0, |o| o.set(s["key"].as_str().unwrap(), s["val"].as_str().unwrap()));
                sc.ev(json!({"ev":"op","op":s,"ok":r.is_ok(),"msg":r.err().map(|e| e.to_string())}));
            }
            "api" => {
                let mut ctx = at().0.clone();
                let (k, v) = (s["key"].as_str().unwrap(), s["val"].as_str().unwrap());
                let u = || v.parse::<usize>().unwrap();
                let b = || v.parse::<bool>().unwrap();
                let r = match k.strip_prefix("distributed.").unwrap() {
                    "file_scan_config_bytes_per_partition" => ctx.set_distributed_file_scan_config_bytes_per_partition(u()),
                    "cardinality_task_count_factor" => ctx.set_distributed_cardinality_effect_task_scale_factor(v.parse().unwrap()),
                    "children_isolator_unions" => ctx.set_distributed_children_isolator_unions(b()),
                    "collect_metrics" => ctx.set_distributed_metrics_collection(b()),
                    "broadcast_joins" => ctx.set_distributed_broadcast_joins(b()),
                    "compression" => ctx.set_distributed_compression(match v { "zstd" => Some(datafusion::arrow::ipc::CompressionType::ZSTD), "lz4" => Some(datafusion::arrow::ipc::CompressionType::LZ4_FRAME), _ => None }),
                    "shuffle_batch_size" => ctx.set_distributed_shuffle_batch_size(u()),
                    "max_tasks_per_stage" => ctx.set_distributed_max_tasks_per_stage(u()),
                    "partial_reduce" => ctx.set_distributed_partial_reduce(b()),
                    "worker_connection_buffer_budget_bytes" => ctx.set_distributed_worker_connection_buffer_budget_bytes(u()),
                    "dynamic_bytes_per_partition" => ctx.set_distributed_dynamic_bytes_per_partition(u()),
                    x => panic!("no setter for {x}"),
                };
                sc.ev(json!({"ev":"op","op":s,"ok":r.is_ok(),"msg":r.err().map(|e| e.to_string())}));
            }
            "headers" => {
                let mut ctx = at().0.clone();
                let r = headers(&s["h"]).and_then(|h| ctx.set_distributed_passthrough_headers(h));
                sc.ev(json!({"ev":"op","op":s,"ok":r.is_ok(),"msg":r.err().map(|e| e.to_string())}));
            }
            "start" => {
                sc.ev(json!({"ev":"op","op":s,"ok":true}));
                let (ctx, slot) = at();
                let r = async {
                    *slot.0.lock().unwrap() = Some(crate::plan::build(sc, &s["plan"])?);
                    let p = ctx.sql("select 1").await?.create_physical_plan().await?;
                    execute_stream(p, ctx.task_ctx())
                }.await;
                match r { Ok(st) => { qs.insert(q, st); } Err(e) => sc.ev(json!({"ev":"done","q":q,"err":e.to_string()})) }
            }
            "go" => sc.gate_set(&format!("g{q}"), 1),
            "finish" => if let Some(mut st) = qs.remove(&q) {
                let mut n = 0;
                let r = tokio::time::timeout(Duration::from_secs(3600), std::panic::AssertUnwindSafe(async {
                    while let Some(b) = st.next().await { n += b?.num_rows(); }
                    Ok::<_, datafusion::error::DataFusionError>(())
                }).catch_unwind()).await;
                let err = match r { Err(_) => Some("hangs".to_string()), Ok(Err(p)) => Some(crate::panic_text(p)), Ok(Ok(Err(e))) => Some(e.to_string()), Ok(Ok(Ok(()))) => None };
                sc.ev(json!({"ev":"done","q":q,"err":err,"rows":n}));
            },
            x => panic!("unknown step {x}"),
        }
        calm().await;
    }
    drop(qs);
    Ok(json!({"log": sc.take_log()}))
}

fn again_built(b: datafusion::execution::SessionStateBuilder, cl: &Cluster) -> datafusion::execution::SessionStateBuilder {
    use datafusion_distributed::SessionStateBuilderExt;
    b.with_distributed_planner()
        .with_distributed_worker_resolver(cl.clone())
        .with_distributed_channel_resolver(cl.resolver(-1))
        .with_distributed_user_codec(Codec)
        .with_distributed_desired_task_count_handler(LeafCount)
        .with_distributed_scale_up_leaf_node_handler(leaf_scale_up)
}

fn reg(ctx: &SessionContext, e: &str) {
    let mut ctx = ctx.clone();
    match e {
        "ea" => ctx.set_distributed_option_extension(Ea::default()),
        "retry" => ctx.set_distributed_option_extension(Retry::default()),
        "Mixed" => ctx.set_distributed_option_extension(Mixed::default()),
        "onlyc" => ctx.set_distributed_option_extension(OnlyC::default()),
        "plain" => { let _ = opts(&ctx, |o| { o.extensions.insert(Plain::default()); Ok(()) }); }
        x => panic!("unknown extension {x}"),
    }
}
