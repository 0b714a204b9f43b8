//! End-to-end queries: SQL text or a physical plan, executed distributed (and optionally single node).
use crate::core::*;
use datafusion::common::Result;
use datafusion::physical_plan::{ExecutionPlan, displayable};
use datafusion::prelude::SessionContext;
use futures::StreamExt;
use serde_json::{Value, json};
use std::sync::Arc;
use std::time::Duration;

pub fn tables(ctx: &SessionContext, sc: &Arc<Scenario>) -> Result<()> {
    for (i, l) in sc.leaves.iter().enumerate() {
        ctx.register_table(l.name.as_str(), Arc::new(ScriptTable { sc: Arc::clone(sc), leaf: i }))?;
    }
    Ok(())
}

/// Executes the plan; returns (rows, error, hang)
pub async fn collect(plan: Arc<dyn ExecutionPlan>, ctx: &SessionContext) -> Value {
    let fut = async {
        let n = plan.properties().partitioning.partition_count();
        let mut rows = vec![];
        for p in 0..n {
            let mut s = plan.execute(p, ctx.task_ctx())?;
            while let Some(b) = s.next().await { rows.extend(from_batch(&b?)); }
        }
        Ok::<_, datafusion::error::DataFusionError>(rows)
    };
    match tokio::time::timeout(Duration::from_secs(3600), fut).await {
        Err(_) => json!({"hang": true}),
        Ok(Err(e)) => json!({"err": e.to_string(), "error": crate::errs::show(&e)}),
        Ok(Ok(r)) => json!({"rows": r}),
    }
}

pub async fn run(c: &Value) -> Value {
    let sc = Scenario::from_case(c);
    let r = inner(c, &sc).await;
    sc.forget();
    match r { Ok(v) => v, Err(e) => json!({"err": format!("{e}"), "phase": "plan"}) }
}

/// The same plan with every node built again from its children, properties included.
fn rebuild(p: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
    let ch = p.children().into_iter().map(|c| rebuild(Arc::clone(c))).collect::<Result<Vec<_>>>()?;
    p.with_new_children(ch)
}

/// The same query on plain single-node DataFusion.
pub async fn single(c: &Value) -> Value {
    let sc = Scenario::from_case(c);
    let r = async {
        let mut conf = datafusion::prelude::SessionConfig::new().with_target_partitions(1);
        if c["same_cfg"].as_bool().unwrap_or(false) {
            let cfg = &c["cfg"];
            // the distributed planner turns uncorrelated scalar subqueries into joins: so does the comparison
            conf.options_mut().optimizer.enable_physical_uncorrelated_scalar_subquery = false;
            conf = conf.with_target_partitions(cfg["parts"].as_u64().unwrap_or(2) as usize);
            if let Some(b) = cfg["batch"].as_u64() { conf = conf.with_batch_size(b as usize); }
            if let Some(o) = cfg["opts"].as_object() { for (k, v) in o { conf.options_mut().set(k, v.as_str().unwrap())?; } }
        }
        let ctx = SessionContext::new_with_config(conf);
        tables(&ctx, &sc)?;
        let p = ctx.sql(c["sql"].as_str().unwrap()).await?.create_physical_plan().await?;
        let p = if c["rebuild"].as_bool().unwrap_or(false) { rebuild(p)? } else { p };
        Ok::<_, datafusion::error::DataFusionError>(collect(p, &ctx).await)
    }.await;
    sc.forget();
    match r { Ok(v) => v, Err(e) => json!({"err": format!("{e}"), "phase": "plan"}) }
}

async fn inner(c: &Value, sc: &Arc<Scenario>) -> Result<Value> {
    let cfg = &c["cfg"];
    let cl = Cluster::new(sc, cfg["workers"].as_u64().unwrap_or(2) as usize, cfg["grpc"].as_bool().unwrap_or(false));
    let planner_plan = match c["plan"].is_object().then(|| crate::plan::build(sc, &c["plan"])) {
        Some(Err(e)) => return Ok(json!({"err": e.to_string(), "phase": "build"})),
        p => p.transpose()?,
    };
    let planner = planner_plan.as_ref().map(|p| Arc::new(crate::plan::FixedPlanner(Arc::clone(p))) as _);
    let b = coordinator_builder(&cl, cfg, planner)?;
    let ctx = SessionContext::from(b.build());
    tables(&ctx, sc)?;
    let sql = c["sql"].as_str().unwrap_or("select 1");
    let plan = ctx.sql(sql).await?.create_physical_plan().await?;
    let text = displayable(plan.as_ref()).indent(false).to_string();
    sc.trees.store(c["sent_trees"].as_bool().unwrap_or(false), std::sync::atomic::Ordering::Relaxed);
    let tree = c["want_tree"].as_bool().unwrap_or(false).then(|| {
        let same = planner_plan.as_ref().is_some_and(|p| displayable(p.as_ref()).indent(false).to_string() == text);
        (crate::tree::tree(&plan), plan.downcast_ref::<datafusion_distributed::DistributedExec>().is_some(), same)
    });
    let mut out = collect(Arc::clone(&plan), &ctx).await;
    if sc.got { sc.ev(json!({"ev":"answered"})); }
    if let Some((t, d, s)) = tree { out["tree"] = t; out["dist"] = json!(d); out["same"] = json!(s); }
    if c["plain"].as_bool().unwrap_or(false) && c["plan"].is_object() {
        let log = sc.take_log();
        out["plain"] = collect(crate::plan::build(sc, if c["plain_plan"].is_object() { &c["plain_plan"] } else { &c["plan"] })?, &SessionContext::new()).await;
        *sc.log.lock().unwrap() = log;
    }
    if c["mx"].as_bool().unwrap_or(false) { out["mx"] = crate::tree::measured(&plan).await; }
    let full = datafusion_distributed::display_plan_ascii(plan.as_ref(), false);
    if c["single"].as_bool().unwrap_or(false) {
        let sctx = SessionContext::new_with_config(datafusion::prelude::SessionConfig::new().with_target_partitions(1));
        tables(&sctx, sc)?;
        let log = sc.take_log();
        let sp = sctx.sql(sql).await?.create_physical_plan().await?;
        out["single"] = collect(sp, &sctx).await;
        *sc.log.lock().unwrap() = log;
    }
    if c["want_plan"].as_bool().unwrap_or(false) {
        let ran = tokio::time::timeout(std::time::Duration::from_secs(3600), datafusion_distributed::rewrite_distributed_plan_with_metrics(Arc::clone(&plan), datafusion_distributed::DistributedMetricsFormat::Aggregated)).await;
        if let Ok(Ok(p)) = ran { out["ran"] = json!(datafusion_distributed::display_plan_ascii(p.as_ref(), false)); }
        out["plan"] = json!(full); out["phys"] = json!(text);
    }
    settle().await;
    let log = sc.take_log();
    out["distributed"] = json!(full.contains("Stage 1") || log.iter().any(|e| e["ev"] == "set_plan"));
    out["log"] = json!(log);
    Ok(out)
}
