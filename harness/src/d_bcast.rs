//! One BroadcastExec over a scripted input, driven step by step (C03).
use crate::core::*;
use datafusion::execution::SendableRecordBatchStream;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::SessionContext;
use datafusion_distributed::BroadcastExec;
use futures::StreamExt;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::atomic::Ordering;

fn script(c: &Value, gated: bool) -> Vec<Vec<Value>> {
    c["script"].as_array().unwrap().iter().enumerate().map(|(p, s)| {
        let mut out = vec![];
        let items = s.as_array().unwrap();
        for (k, it) in items.iter().enumerate() {
            let it = it.as_str().unwrap();
            if it == "xerr" { return vec![json!({"xerr": "input-failure"})]; }
            if gated { out.push(json!({"gate": format!("p{p}"), "n": k + 1})); }
            out.push(match it { "b" => json!([[p * 10 + k + 1]]), "err" => json!({"err": "input-failure"}), _ => json!({"panic": "input-failure"}) });
        }
        if gated { out.push(json!({"gate": format!("p{p}"), "n": items.len() + 1})); }
        out
    }).collect()
}

fn show(x: Option<datafusion::common::Result<datafusion::arrow::record_batch::RecordBatch>>) -> String {
    match x {
        None => "end".into(),
        Some(Err(e)) => if e.to_string().contains("input-failure") { "err".into() } else { format!("other error: {e}") },
        Some(Ok(b)) => { let r = from_batch(&b); if r.len() == 1 { r[0][0].unwrap_or(-1).to_string() } else { format!("{r:?}") } }
    }
}

pub async fn run(c: &Value) -> Value {
    let gated = c["steps"].is_array();
    let n = c["N"].as_u64().unwrap() as usize;
    let np = c["P"].as_u64().unwrap() as usize;
    let sc = Scenario::new(vec![LeafSpec::parse(&json!({"name":"t","cols":["a:i"],"parts":script(c, gated)}))], vec![], false);
    let leaf = ScriptExec::new(&sc, 0, 0, 0, None);
    let ctx = SessionContext::new().task_ctx();
    let mut plan: Option<Arc<dyn ExecutionPlan>> = Some(Arc::new(BroadcastExec::new(leaf, n)));
    let mut out = vec![];
    if gated {
        let mut rd: HashMap<(u64, u64), SendableRecordBatchStream> = HashMap::new();
        for s in c["steps"].as_array().unwrap() {
            let (p, k) = (s["p"].as_u64().unwrap(), s["c"].as_u64().unwrap());
            let r = match s["op"].as_str().unwrap() {
                "open" => match plan.as_ref().unwrap().execute(k as usize * np + p as usize, Arc::clone(&ctx)) {
                    Ok(st) => { rd.insert((p, k), st); "ok".to_string() }
                    Err(e) => if e.to_string().contains("input-failure") { "xerr".into() } else { "toomany".into() },
                },
                "release" => { sc.gate_add(&format!("p{p}")); String::new() }
                "poll" => match futures::poll!(rd.get_mut(&(p, k)).unwrap().next()) { std::task::Poll::Pending => "pending".into(), std::task::Poll::Ready(x) => show(x) },
                "drop" => { rd.remove(&(p, k)); String::new() }
                _ => { plan = None; String::new() }
            };
            out.push(json!(r));
            settle().await;
        }
        drop(rd);
    } else {
        // free running readers on a multi-threaded runtime: (start delay, delay per batch, batches read before leaving)
        let mut hs = vec![];
        for r in c["readers"].as_array().unwrap() {
            let u = |i: usize| r[i].as_u64().unwrap();
            let (plan, ctx, v) = (Arc::clone(plan.as_ref().unwrap()), Arc::clone(&ctx), u(0) as usize);
            let (d0, d1, lim) = (u(1), u(2), u(3) as usize);
            hs.push(tokio::spawn(async move {
                for _ in 0..d0 { tokio::task::yield_now().await; }
                let mut got = vec![];
                match plan.execute(v, ctx) {
                    Err(e) => got.push(if e.to_string().contains("input-failure") { "xerr".to_string() } else { "toomany".into() }),
                    Ok(mut s) => {
                        drop(plan);
                        while got.len() < lim {
                            let x = match tokio::time::timeout(std::time::Duration::from_secs(20), s.next()).await { Ok(x) => show(x), Err(_) => "hang".into() };
                            let stop = x == "end" || x == "hang";
                            got.push(x);
                            if stop { break; }
                            for _ in 0..d1 { tokio::task::yield_now().await; }
                        }
                    }
                }
                got
            }));
        }
        plan = None;
        for h in hs { out.push(match h.await { Ok(v) => json!(v), Err(_) => json!(["panic"]) }); }
    }
    drop(plan);
    // whatever is left must stop by itself
    for _ in 0..200 { if sc.live_streams.load(Ordering::SeqCst) == 0 { break; } if gated { settle().await } else { tokio::time::sleep(std::time::Duration::from_millis(2)).await } }
    let log = sc.take_log();
    let mut execs = vec![0; np];
    for e in &log { if e["ev"] == "leaf" { execs[e["p"].as_u64().unwrap() as usize] += 1; } }
    let live = sc.live_streams.load(Ordering::SeqCst);
    sc.forget();
    json!({"res": out, "execs": execs, "live": live})
}
