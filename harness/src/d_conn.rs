//! The readers of one gRPC connection to a worker (C11).
use crate::core::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::Result;
use datafusion::execution::TaskContext;
use datafusion::execution::runtime_env::RuntimeEnv;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion_distributed::*;
use futures::StreamExt;
use futures::stream::BoxStream;
use http::HeaderMap;
use serde_json::{Value, json};
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::time::Duration;

fn items(p: usize, s: &Value) -> Vec<Value> {
    let (mut k, mut g) = (0, 0);
    let mut out = vec![];
    for it in s.as_array().unwrap() {
        let v = |k: usize| p * 1000 + k;
        match it.as_str().unwrap() {
            "w" => { g += 1; out.push(json!({"gate": format!("p{p}"), "n": g})); }
            "xerr" => { out.push(json!({"xerr": format!("fault-{p}")})); }
            "panic" => { out.push(json!({"panic": format!("fault-{p}")})); }
            "err" => { out.push(json!({"err": format!("fault-{p}")})); }
            "B" => { k += 1; out.push(json!({"big": 8192, "v": v(k)})); }
            _ => { k += 1; out.push(json!({"big": 1, "v": v(k)})); }
        }
    }
    out
}

fn show(x: Option<Result<RecordBatch>>) -> String {
    match x {
        None => "end".into(),
        Some(Err(e)) => { let t = e.to_string(); if t.contains("fault-") { "err".into() } else { format!("foreign error: {t}") } }
        Some(Ok(b)) => {
            let c = b.column(0).as_any().downcast_ref::<datafusion::arrow::array::Int64Array>().unwrap();
            let v = c.value(0);
            if b.columns() == big_batch(&b.schema(), b.num_rows(), v).columns() && !c.is_empty() && (b.num_rows() == 1 || b.num_rows() == 8192) { v.to_string() } else { format!("torn batch of {} rows", b.num_rows()) }
        }
    }
}

pub struct Conn { pub cl: Cluster, pub sc: Arc<Scenario>, pub ctx: Arc<TaskContext>, pub tx: tokio::sync::mpsc::UnboundedSender<CoordinatorToWorkerMsg> }

pub async fn connect(c: &Value, first: usize) -> Result<(Conn, Vec<Option<BoxStream<'static, Result<RecordBatch>>>>)> {
    let np = c["P"].as_u64().unwrap() as usize;
    // `first` partitions below the requested range exist and must stay untouched
    let mut parts = vec![json!([{"big":1,"v":999999}]); first];
    parts.extend((0..np).map(|p| json!(items(p, &c["script"][p]))));
    parts.push(json!([{"big":1,"v":999999}]));
    let sc = Scenario::new(vec![LeafSpec::parse(&json!({"name":"t","cols":["a:i","x:i"],"parts":parts}))], vec![], true);
    let cl = Cluster::with(&sc, 1, c["grpc"].as_bool().unwrap_or(true), |w| match c["msg"].as_u64() { Some(m) => w.with_max_message_size(m as usize), None => w }, c["duplex"].as_u64().unwrap_or(1 << 20) as usize);
    let st = coordinator_builder(&cl, &json!({"budget": c["budget"], "compression": c["compression"]}), None)?.with_runtime_env(Arc::new(RuntimeEnv::default())).build();
    let ctx = st.task_ctx();
    let key = TaskKey { query_id: uuid::Uuid::from_u128(5), stage_id: 1, task_number: 0 };
    let plan: Arc<dyn datafusion::physical_plan::ExecutionPlan> = ScriptExec::new(&sc, 0, 0, 0, None);
    let req = SetPlanRequest { task_key: key, task_count: 1, plan: MaybeEncoded::Decoded(plan), work_unit_feed_declarations: vec![], target_worker_url: wurl(0), query_start_time_ns: 0 };
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let c2w = futures::stream::poll_fn(move |cx| rx.poll_recv(cx)).boxed();
    let mut h = HeaderMap::new();
    if let Some(z) = c["compression"].as_str() { h.insert("x-datafusion-distributed-config-distributed.compression", z.parse().unwrap()); }
    let mut w2c = cl.raw_channel(0).coordinator_channel(h, req, c2w, ExecutionPlanMetricsSet::new(), &ctx).await?;
    tokio::spawn(async move { while w2c.next().await.is_some() {} });
    let r = ExecuteTaskRequest { task_key: key, target_partition_start: first, target_partition_end: first + np, producer_head: ProducerHead::None };
    let v = cl.raw_channel(0).execute_task(HeaderMap::new(), r, ExecutionPlanMetricsSet::new(), &ctx).await?;
    if v.len() != np { return datafusion::common::exec_err!("{} streams for {np} partitions", v.len()); }
    Ok((Conn { cl, sc, ctx, tx }, v.into_iter().map(Some).collect()))
}

fn produced(sc: &Scenario) -> usize { sc.log.lock().unwrap().iter().filter(|e| e["ev"] == "leaf_batch").count() }

pub async fn run(c: &Value) -> Value {
    let (conn, mut rd) = match connect(c, c["first"].as_u64().unwrap_or(1) as usize).await { Ok(x) => x, Err(e) => return json!({"connect_error": e.to_string()}) };
    let mut out = vec![];
    for s in c["steps"].as_array().unwrap() {
        let p = s["p"].as_u64().unwrap() as usize;
        let mut r = String::new();
        match s["op"].as_str().unwrap() {
            "poll" => {
                let st = rd[p].as_mut().unwrap();
                // a reader that waits until nothing else can happen
                r = match tokio::time::timeout(Duration::from_millis(1), st.next()).await { Ok(x) => show(x), Err(_) => "pending".into() };
            }
            "release" => conn.sc.gate_add(&format!("p{p}")),
            _ => { rd[p] = None; }
        }
        settle().await;
        out.push(json!({"r": r, "mem": conn.ctx.memory_pool().reserved(), "made": produced(&conn.sc), "live": conn.sc.live_streams.load(Ordering::SeqCst)}));
    }
    // every reader leaves: the remote work must stop and nothing may stay accounted for
    drop(rd);
    for _ in 0..5 { settle().await; }
    let (mem, live) = (conn.ctx.memory_pool().reserved(), conn.sc.live_streams.load(Ordering::SeqCst));
    let log = conn.sc.take_log();
    let execs: Vec<u64> = log.iter().filter(|e| e["ev"] == "leaf").map(|e| e["p"].as_u64().unwrap()).collect();
    drop(conn.tx);
    settle().await;
    let left = conn.cl.tasks_running().await;
    conn.sc.forget();
    json!({"res": out, "mem": mem, "live": live, "execs": execs, "left": left})
}

/// Free running readers on several threads: [batches to read, pause between batches (yields), start delay (yields)]
pub async fn free(c: &Value) -> Value {
    let rows: std::collections::HashMap<i64, usize> = c["script"].as_array().unwrap().iter().enumerate().flat_map(|(p, s)| s.as_array().unwrap().iter().enumerate().map(move |(k, it)| ((p * 1000 + k + 1) as i64, if it == "B" { 8192 } else { 1 }))).collect();
    let rows = Arc::new(rows);
    let (conn, rd) = match connect(c, 0).await { Ok(x) => x, Err(e) => return json!({"connect_error": e.to_string()}) };
    let mut hs = vec![];
    for (st, r) in rd.into_iter().zip(c["readers"].as_array().unwrap()) {
        let mut st = st.unwrap();
        let rows = Arc::clone(&rows);
        let big = move |v: i64| rows.get(&v).copied().unwrap_or(0);
        let u = |i: usize| r[i].as_u64().unwrap() as usize;
        let (lim, pause, start) = (u(0), u(1), u(2));
        // with a maximum message size a batch may come in several pieces, each within it
        let msg = c["msg"].as_u64().map(|x| x as usize);
        let mut part: Option<(i64, usize)> = None;
        hs.push(tokio::spawn(async move {
            for _ in 0..start { tokio::task::yield_now().await; }
            let mut got = vec![];
            while got.len() < lim {
                let x = match tokio::time::timeout(Duration::from_secs(20), st.next()).await { Ok(Some(Ok(b))) if msg.is_some() => {
                    let v = b.column(0).as_any().downcast_ref::<datafusion::arrow::array::Int64Array>().unwrap().value(0);
                    let before = match part { Some((w, n)) if w == v => n, Some(_) => usize::MAX / 2, None => 0 };
                    if b.columns() != big_batch(&b.schema(), b.num_rows(), v).columns() { "torn".into() }
                    else if b.num_rows() > 1 && b.get_array_memory_size() > 2 * msg.unwrap() + 4096 { format!("a piece of {} bytes", b.get_array_memory_size()) }
                    else if before + b.num_rows() == big(v) { part = None; v.to_string() }
                    else { part = Some((v, before + b.num_rows())); continue }
                }, Ok(x) => { if part.is_some() && x.is_none() { "torn at the end".into() } else { show(x) } }, Err(_) => "hang".into() };
                let stop = x == "end" || x == "hang" || x.contains("err");
                got.push(x);
                if stop { break; }
                for _ in 0..pause { tokio::task::yield_now().await; }
            }
            got
        }));
    }
    let mut out = vec![];
    for h in hs { out.push(match h.await { Ok(v) => json!(v), Err(_) => json!(["panic"]) }); }
    for _ in 0..500 { if conn.sc.live_streams.load(Ordering::SeqCst) == 0 && conn.ctx.memory_pool().reserved() == 0 { break; } tokio::time::sleep(Duration::from_millis(2)).await; }
    let r = json!({"res": out, "mem": conn.ctx.memory_pool().reserved(), "live": conn.sc.live_streams.load(Ordering::SeqCst)});
    conn.sc.forget();
    r
}
