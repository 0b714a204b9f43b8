//! The life of queries under a script of client steps: start, poll, drop, release of sources, cut connections, census.
use crate::core::*;
use crate::d_sql::tables;
use datafusion::common::Result;
use datafusion::physical_plan::{ExecutionPlan, SendableRecordBatchStream, execute_stream};
use datafusion::prelude::SessionContext;
use futures::{FutureExt, StreamExt};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::time::Duration;

const HANG: Duration = Duration::from_secs(3600);

enum Q { Open(SendableRecordBatchStream), Bg(tokio::task::JoinHandle<()>), Over }

pub async fn run(c: &Value) -> Value {
    let sc = Scenario::from_case(c);
    let r = inner(c, &sc).await;
    sc.forget();
    match r { Ok(v) => v, Err(e) => json!({"err": format!("{e}"), "phase": "setup"}) }
}

async fn open(ctx: &SessionContext, sql: &str, again: bool, keep: &mut Option<Arc<dyn ExecutionPlan>>) -> Result<SendableRecordBatchStream> {
    let plan = match keep.take() { Some(p) => p, None => ctx.sql(sql).await?.create_physical_plan().await? };
    if again { *keep = Some(Arc::clone(&plan)); }
    execute_stream(plan, ctx.task_ctx())
}

/// The worker's cache defers the destruction of removed entries (crossbeam-epoch): do it now
async fn reclaim(mt: bool) {
    for _ in 0..4 { crossbeam_epoch::pin().flush(); }
    if mt {
        let hs: Vec<_> = (0..32).map(|_| tokio::spawn(async { for _ in 0..4 { crossbeam_epoch::pin().flush(); tokio::task::yield_now().await; } })).collect();
        for h in hs { let _ = h.await; }
    }
}

/// Reads one item and records it; true: the query is over
fn item(sc: &Scenario, q: &Value, x: Option<Result<datafusion::arrow::record_batch::RecordBatch>>) -> bool {
    match x {
        None => { sc.ev(json!({"ev":"q_end","q":q})); true }
        Some(Err(e)) => { sc.ev(json!({"ev":"q_err","q":q,"msg":e.to_string()})); true }
        Some(Ok(b)) => { sc.ev(json!({"ev":"q_rows","q":q,"rows":from_batch(&b)})); false }
    }
}

/// A panic that reaches the client carries the failure just as well
fn panicked(sc: &Scenario, q: &Value, p: Box<dyn std::any::Any + Send>) { sc.ev(json!({"ev":"q_err","q":q,"panic":true,"msg":crate::panic_text(p)})); }

async fn read_all(sc: &Scenario, q: &Value, s: &mut SendableRecordBatchStream, mt: bool) {
    let limit = if mt { Duration::from_secs(30) } else { HANG };
    loop {
        match tokio::time::timeout(limit, std::panic::AssertUnwindSafe(s.next()).catch_unwind()).await {
            Err(_) => { sc.ev(json!({"ev":"q_hang","q":q})); break; }
            Ok(Err(p)) => { panicked(sc, q, p); break; }
            Ok(Ok(x)) => if item(sc, q, x) { break; }
        }
    }
}

async fn inner(c: &Value, sc: &Arc<Scenario>) -> Result<Value> {
    let cfg = &c["cfg"];
    let mt = c["mt"].as_bool().unwrap_or(false);
    let cl = Cluster::with_proxy(sc, cfg["workers"].as_u64().unwrap_or(2) as usize, cfg["grpc"].as_bool().unwrap_or(false), |w| w, 1 << 20, true);
    let ctx = SessionContext::from(coordinator_builder(&cl, cfg, None)?.build());
    tables(&ctx, sc)?;
    let mut qs: HashMap<String, Q> = HashMap::new();
    let mut plans: HashMap<String, Option<Arc<dyn ExecutionPlan>>> = HashMap::new();
    let calm = || tokio::time::sleep(Duration::from_millis(1));
    for s in c["script"].as_array().unwrap() {
        let q = &s["q"];
        let key = q.to_string();
        match s["do"].as_str().unwrap() {
            "start" => {
                sc.ev(json!({"ev":"q_start","q":q}));
                // a plan used before may be executed again
                let keep = plans.entry(s["plan"].to_string()).or_default();
                if !s["reuse"].as_bool().unwrap_or(false) { *keep = None; }
                match tokio::time::timeout(if mt { Duration::from_secs(30) } else { HANG }, std::panic::AssertUnwindSafe(open(&ctx, s["sql"].as_str().unwrap(), s["keep"].as_bool().unwrap_or(false), keep)).catch_unwind()).await {
                    Ok(Err(p)) => { panicked(sc, q, p); qs.insert(key, Q::Over); }
                    Err(_) => { sc.ev(json!({"ev":"q_hang","q":q})); qs.insert(key, Q::Over); }
                    Ok(Ok(Err(e))) => { sc.ev(json!({"ev":"q_err","q":q,"msg":e.to_string()})); qs.insert(key, Q::Over); }
                    Ok(Ok(Ok(st))) => { qs.insert(key, Q::Open(st)); }
                }
            }
            "poll" => if let Some(Q::Open(st)) = qs.get_mut(&key) {
                match tokio::time::timeout(Duration::from_millis(1), std::panic::AssertUnwindSafe(st.next()).catch_unwind()).await {
                    Err(_) => sc.ev(json!({"ev":"q_pend","q":q})),
                    Ok(Err(p)) => { panicked(sc, q, p); qs.insert(key, Q::Over); }
                    Ok(Ok(x)) => if item(sc, q, x) { qs.insert(key, Q::Over); }
                }
            },
            "all" => if let Some(Q::Open(mut st)) = qs.insert(key, Q::Over) { read_all(sc, q, &mut st, mt).await; },
            "bg" => if let Some(Q::Open(mut st)) = qs.remove(&key) {
                let (sc, q) = (Arc::clone(sc), q.clone());
                qs.insert(key, Q::Bg(tokio::spawn(async move { read_all(&sc, &q, &mut st, mt).await; })));
            },
            "join" => if let Some(Q::Bg(h)) = qs.insert(key, Q::Over) { let _ = h.await; },
            "drop" => match qs.insert(key, Q::Over) {
                Some(Q::Open(st)) => { sc.ev(json!({"ev":"q_drop","q":q})); drop(st); }
                Some(Q::Bg(h)) => { if !h.is_finished() { sc.ev(json!({"ev":"q_drop","q":q})); h.abort(); let _ = h.await; } }
                _ => {}
            },
            "gate" => { let mut g = s["n"].as_u64().unwrap(); if g == 0 { sc.gate_add("g"); g = 1; } else { sc.gate_set("g", g); } let _ = g; }
            "wait" => tokio::time::sleep(Duration::from_millis(s["ms"].as_u64().unwrap_or(1))).await,
            "cut" => {
                let h = cl.inner.cut.lock().unwrap();
                let i = s["w"].as_u64().unwrap() as usize;
                if i < h.len() { sc.ev(json!({"ev":"cut","w":i})); h[i].abort(); }
            }
            "quiet" => {
                let mut n = (0, 0, 0, 0);
                for i in 0..(if mt { 35 } else { 60 }) {
                    calm().await;
                    reclaim(mt).await;
                    n = (cl.tasks_running().await as i64, sc.live_streams.load(Ordering::SeqCst), sc.open_c2w.load(Ordering::SeqCst), sc.live_leaves.load(Ordering::SeqCst));
                    if n == (0, 0, 0, 0) { break; }
                    if (n.1, n.2, n.3) != (0, 0, 0) { std::thread::sleep(Duration::from_millis(if i < 30 { 1 } else { 30 })); }
                    tokio::time::sleep(Duration::from_millis(if i < 30 { 5 } else { 1000 })).await;
                }
                sc.ev(json!({"ev":"quiet","tasks":n.0,"live":n.1,"open":n.2,"plans":n.3}));
            }
            x => panic!("unknown step {x}"),
        }
        if !mt { calm().await; }
    }
    drop(qs);
    Ok(json!({"log": sc.take_log()}))
}
