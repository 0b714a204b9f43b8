//! The structure of a distributed plan, for the specification Plans.
use crate::core::*;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::metrics::{Metric, MetricValue};
use datafusion_distributed::{DistributedLeafExec, NetworkBoundaryExt};
use serde_json::{Value, json};
use std::sync::Arc;

fn declared(c: &str) -> (&str, u64) {
    for d in ["m", "d"] { if let Some(n) = c.strip_prefix(d) { return (d, n.parse().unwrap_or(0)); } }
    ("", 0)
}

pub fn tree(p: &Arc<dyn ExecutionPlan>) -> Value {
    let (mut leaf, mut v, mut decl) = (-1i64, -1i64, ("".to_string(), 0u64));
    let orig = match p.downcast_ref::<DistributedLeafExec>() { Some(d) => { v = d.variants().len() as i64; d.original() } None => p };
    if let Some(s) = orig.downcast_ref::<ScriptExec>() {
        leaf = s.leaf as i64;
        if let Ok(sc) = scenario(s.sid) { let (d, n) = declared(&sc.leaves[s.leaf].count); decl = (d.to_string(), n); }
    }
    if let Some(t) = p.downcast_ref::<TapExec>() { let (d, n) = declared(t.mode.split('/').next().unwrap_or("")); decl = (d.to_string(), n); }
    let (mut stage, mut tasks) = (0, 0);
    let kids: Vec<Value> = match p.as_network_boundary() {
        Some(b) => { let s = b.input_stage(); stage = s.num(); tasks = s.task_count(); s.local_plan().map(tree).into_iter().collect() }
        None if v >= 0 => vec![],
        None => p.children().into_iter().map(tree).collect(),
    };
    json!({"op":p.name(),"p":p.properties().partitioning.partition_count(),"leaf":leaf,"decl":decl.0,"dn":decl.1,"v":v,"stage":stage,"tasks":tasks,"kids":kids})
}

/// The plan with the numbers its nodes report: [name, partition, task label, value].
pub fn numbers(p: &Arc<dyn ExecutionPlan>, stage: usize) -> Value {
    let label = p.downcast_ref::<TapExec>().map(|t| t.label.clone()).unwrap_or_default();
    let set = p.metrics().unwrap_or_default();
    let show = |m: &Metric| { let n = m.value().name(); n == "output_rows" || n == "script_batches" || n.starts_with("x_") || !label.is_empty() };
    // a metric of several numbers counts as several metrics
    let parts = |m: &Metric| -> Vec<(String, usize)> {
        let n = m.value().name();
        match m.value() {
            MetricValue::PruningMetrics { pruning_metrics: x, .. } => vec![(format!("{n}.pruned"), x.pruned()), (format!("{n}.matched"), x.matched()), (format!("{n}.fully"), x.fully_matched())],
            MetricValue::Ratio { ratio_metrics: x, .. } => vec![(format!("{n}.part"), x.part()), (format!("{n}.total"), x.total()), (format!("{n}.raw"), x.display_raw_values() as usize)],
            v => vec![(n.to_string(), v.as_usize())],
        }
    };
    let ms: Vec<Value> = set.iter().filter(|m| show(m)).flat_map(|m| {
        let t: i64 = m.labels().iter().find(|l| l.name() == "task_id").and_then(|l| l.value().parse().ok()).unwrap_or(-1);
        let mut v: Vec<Value> = parts(m).into_iter().map(|(n, x)| json!([n, m.partition().map(|x| x as i64).unwrap_or(-1), t, x])).collect();
        if let Some(l) = m.labels().iter().find(|l| l.name() == "x_of") { v.push(json!(["x_of", m.partition().map(|x| x as i64).unwrap_or(-1), t, l.value().parse::<u64>().unwrap_or(0)])); }
        v
    }).collect();
    let sums: serde_json::Map<String, Value> = set.aggregate_by_name().iter().filter(|m| show(m)).flat_map(|m| parts(m).into_iter().map(|(n, x)| (n, json!(x)))).collect();
    let kids: Vec<Value> = match p.as_network_boundary() {
        Some(b) => { let s = b.input_stage(); s.local_plan().map(|x| numbers(x, s.num())).into_iter().collect() }
        None => p.children().into_iter().map(|c| numbers(c, stage)).collect(),
    };
    json!({"op":p.name(),"label":label,"stage":stage,"p":p.properties().partitioning.partition_count(),"ms":ms,"sums":sums,"kids":kids})
}

/// Asks for the metrics of an executed plan, per task and summed.
pub async fn measured(plan: &Arc<dyn ExecutionPlan>) -> Value {
    use datafusion_distributed::{DistributedExec, DistributedMetricsFormat as F, display_plan_ascii, rewrite_distributed_plan_with_metrics};
    let mut out = json!({});
    for (k, f) in [("pt", F::PerTask), ("ag", F::Aggregated)] {
        let r = tokio::time::timeout(std::time::Duration::from_secs(60), rewrite_distributed_plan_with_metrics(Arc::clone(plan), f)).await;
        out[k] = match r {
            Err(_) => json!({"hang": true}),
            Ok(Err(e)) => json!({"err": e.to_string()}),
            Ok(Ok(p)) => {
                let kids: Vec<Value> = p.downcast_ref::<DistributedExec>().map(|d| d.children().into_iter().map(|c| numbers(c, 0)).collect()).unwrap_or_else(|| vec![numbers(&p, 0)]);
                json!({"tree": kids[0], "text": display_plan_ascii(p.as_ref(), true)})
            }
        };
    }
    out
}
