//! Chains of user handlers (routing, desired task counts, leaf scaling, worker plan rewrites) and where tasks end up.
use crate::core::*;
use async_trait::async_trait;
use datafusion::common::tree_node::{Transformed, TreeNode};
use datafusion::common::{Result, exec_err};
use datafusion::datasource::source::DataSourceExec;
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use futures::{FutureExt, StreamExt};
use serde_json::{Value, json};
use std::sync::Arc;
use std::time::Duration;

pub async fn run(c: &Value) -> Value {
    let sc = Scenario::from_case(c);
    let r = inner(c, &sc).await;
    sc.forget();
    match r { Ok(v) => v, Err(e) => json!({"err": format!("{e}"), "phase": "setup"}) }
}

fn leaf_name(p: &Arc<dyn ExecutionPlan>) -> Option<String> {
    if let Some(s) = p.downcast_ref::<ScriptExec>() { return Some(format!("l{}", s.leaf)); }
    p.is::<DataSourceExec>().then(|| "f".to_string())
}
fn stage_name(p: &Arc<dyn ExecutionPlan>) -> String { taps_of(p).into_iter().find(|t| t.starts_with('s') && !t.starts_with("su")).unwrap_or_default() }

/// "none" or nothing: the handler declines
fn kind(a: &Value) -> &str { a["k"].as_str().unwrap_or("none") }
fn bad<T>(a: &Value) -> Result<T> { exec_err!("{}", a["msg"].as_str().unwrap()) }

struct Count { sc: Arc<Scenario>, h: usize, ans: Value }
#[async_trait]
impl DesiredTaskCountHandler for Count {
    async fn handle(&self, ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
        let l = leaf_name(ev.plan)?;
        let a = &self.ans[&l];
        self.sc.ev(json!({"ev":"h","kind":"desired","h":self.h,"on":l}));
        if self.ans["slow"] == true { tokio::task::yield_now().await; }
        match kind(a) {
            "desired" => Some(Ok(DesiredTaskCountEventResponse::desired(a["n"].as_u64().unwrap() as usize))),
            "maximum" => Some(Ok(DesiredTaskCountEventResponse::maximum(a["n"].as_u64().unwrap() as usize))),
            "err" => Some(bad(a)),
            _ => None,
        }
    }
}

fn scale(sc: &Arc<Scenario>, h: usize, ans: &Value, ev: ScaleUpLeafNodeEvent) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    let l = leaf_name(ev.plan)?;
    let a = &ans[&l];
    sc.ev(json!({"ev":"h","kind":"scale","h":h,"on":l,"tc":ev.task_count}));
    match kind(a) {
        "su" => {
            let vs: Vec<Arc<dyn ExecutionPlan>> = (0..ev.task_count).map(|t| {
                let v: Arc<dyn ExecutionPlan> = match ev.plan.downcast_ref::<ScriptExec>() { Some(s) => ScriptExec::limited(sc, s.leaf, ev.task_count, t, s.proj.clone(), s.fetch) as _, None => Arc::clone(ev.plan) };
                TapExec::new(sc.id, &format!("u{h}.{t}.{l}"), "", v) as _
            }).collect();
            Some(DistributedLeafExec::try_new(Arc::clone(ev.plan), vs).map(|d| ScaleUpLeafNodeEventResponse::new(Arc::new(d))))
        }
        "err" => Some(bad(a)),
        _ => None,
    }
}

fn route(sc: &Arc<Scenario>, h: usize, ans: &Value, ev: RouteTasksEvent) -> Option<Result<RouteTasksEventResponse>> {
    let st = stage_name(ev.plan);
    let a = &ans[&st];
    sc.ev(json!({"ev":"h","kind":"route","h":h,"on":st,"tc":ev.task_count}));
    let list = |n: usize| Some(Ok(RouteTasksEventResponse::new((0..n).map(|i| { let w = a["w"].as_array().unwrap(); wurl(w[i % w.len()].as_u64().unwrap() as usize) }).collect())));
    match kind(a) {
        "urls" => list(ev.task_count),
        "short" => list(ev.task_count - 1),
        "long" => list(ev.task_count + 1),
        "err" => Some(bad(a)),
        "panic" => panic!("{}", a["msg"].as_str().unwrap()),
        _ => None,
    }
}

fn rewrite(sc: &Arc<Scenario>, h: usize, w: usize, ans: &Value, ev: WorkerPlanRewriteEvent) -> Result<WorkerPlanRewriteEventResponse> {
    let st = stage_name(&ev.plan);
    let t = ev.session_config.get_extension::<PhysTask>().map(|t| t.0).unwrap_or(-1);
    let chain: Vec<String> = taps_of(&ev.plan).into_iter().filter(|l| l.starts_with("rw")).collect();
    sc.ev(json!({"ev":"h","kind":"rewrite","h":h,"on":st,"t":t,"w":w,"chain":chain}));
    let a = &ans[&st];
    match kind(a) {
        "err" => return bad(a),
        "panic" => panic!("{}", a["msg"].as_str().unwrap()),
        "keep" => return Ok(WorkerPlanRewriteEventResponse::new(ev.plan)),
        _ => {}
    }
    let p = ev.plan.transform_up(|p| Ok(match leaf_name(&p) { Some(l) => Transformed::yes(TapExec::new(sc.id, &format!("rw{h}.{l}"), "", p) as _), None => Transformed::no(p) }))?.data;
    Ok(WorkerPlanRewriteEventResponse::new(p))
}

async fn inner(c: &Value, sc: &Arc<Scenario>) -> Result<Value> {
    let cfg = &c["cfg"];
    let hs = &c["handlers"];
    let list = |k: &str| hs[k].as_array().unwrap().iter().cloned().enumerate().collect::<Vec<_>>();
    let cl = Cluster::new(sc, cfg["workers"].as_u64().unwrap_or(2) as usize, cfg["grpc"].as_bool().unwrap_or(false));
    let (sc2, rws) = (Arc::clone(sc), list("rewrite"));
    *cl.inner.session_hook.lock().unwrap() = Some(Arc::new(move |mut b, _, w| {
        for (j, h) in &rws { let (sc, j, a) = (Arc::clone(&sc2), *j, h["ans"].clone()); b = b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent| rewrite(&sc, j, w, &a, ev)); }
        Ok(b)
    }));
    if c["scan"].is_object() {
        let x = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(c["scan"]["parts"].as_u64().unwrap_or(2) as usize));
        crate::d_files::prepare(&x, &c["scan"]).await?;
        let mut p = x.sql("select k, id from f").await?.create_physical_plan().await?;
        while let Some(k) = p.children().first() { let k = Arc::clone(k); p = k; }
        sc.nodes.lock().unwrap().insert("f".into(), p);
    }
    let plan = crate::plan::build(sc, &c["plan"])?;
    let put = |mut b: SessionStateBuilder, pre: bool| {
        let mine = |h: &Value| h["pre"].as_bool().unwrap_or(false) == pre;
        for (j, h) in list("desired") { if mine(&h) { b = b.with_distributed_desired_task_count_handler(Count { sc: Arc::clone(sc), h: j, ans: h["ans"].clone() }); } }
        for (j, h) in list("scale") { if mine(&h) { let (sc, a) = (Arc::clone(sc), h["ans"].clone()); b = b.with_distributed_scale_up_leaf_node_handler(move |ev: ScaleUpLeafNodeEvent| scale(&sc, j, &a, ev)); } }
        for (j, h) in list("route") { if mine(&h) { let (sc, a) = (Arc::clone(sc), h["ans"].clone()); b = b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent| route(&sc, j, &a, ev)); } }
        b
    };
    let b = SessionStateBuilder::new().with_default_features().with_config(SessionConfig::new().with_target_partitions(2)).with_query_planner(Arc::new(crate::plan::FixedPlanner(plan)));
    let b = put(b, true).with_distributed_planner()
        .with_distributed_worker_resolver(cl.clone())
        .with_distributed_channel_resolver(cl.resolver(-1))
        .with_distributed_user_codec(Codec)
        .with_distributed_metrics_collection(false)?
        .with_distributed_dynamic_task_count(cfg["dyn"].as_bool().unwrap_or(false))?
        .with_distributed_cardinality_effect_task_scale_factor(1.0)?
        .with_distributed_file_scan_config_bytes_per_partition(cfg["file_bytes"].as_u64().unwrap_or(1) as usize)?;
    let mut b = put(b, false);
    if let Some(i) = cfg["local"].as_u64() { b = b.with_distributed_local_worker_context(cl.worker(i as usize).to_local_worker_context(wurl(i as usize))); }
    let ctx = SessionContext::from(b.build());
    for _ in 0..c["runs"].as_u64().unwrap_or(1) {
        let mut n = 0;
        let r = tokio::time::timeout(Duration::from_secs(3600), std::panic::AssertUnwindSafe(async {
            let p = ctx.sql("select 1").await?.create_physical_plan().await?;
            sc.ev(json!({"ev":"planned"}));
            let mut s = execute_stream(p, ctx.task_ctx())?;
            while let Some(b) = s.next().await { n += b?.num_rows(); }
            Ok::<_, datafusion::error::DataFusionError>(())
        }).catch_unwind()).await;
        let err = match r { Err(_) => Some("hangs".to_string()), Ok(Err(p)) => Some(crate::panic_text(p)), Ok(Ok(Err(e))) => Some(e.to_string()), Ok(Ok(Ok(()))) => None };
        tokio::time::sleep(Duration::from_millis(1)).await;
        sc.ev(json!({"ev":"done","err":err,"rows":n}));
    }
    Ok(json!({"log": sc.take_log()}))
}
