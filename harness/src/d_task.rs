//! One worker driven through its client interface, step by step (C08).
use crate::core::*;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::{Result, exec_err};
use datafusion::execution::{SessionStateBuilder, TaskContext};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion_distributed::*;
use futures::stream::BoxStream;
use futures::{StreamExt, TryStreamExt};
use http::{HeaderMap, HeaderValue};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;
use tokio::task::JoinHandle;
use uuid::Uuid;

pub fn key(k: u64) -> TaskKey {
    // neighbours differ in exactly one component
    let (q, s, t) = [(0, 1, 0), (0, 1, 1), (0, 2, 0), (1, 1, 0), (1, 2, 1)][(k as usize - 1) % 5];
    TaskKey { query_id: Uuid::from_u128(77 + q), stage_id: s, task_number: t }
}
pub fn tcount(k: u64) -> usize { 2 + k as usize }

/// Worker sessions obey the headers of the submission: wait for a gate, fail, install a failing rewrite.
pub fn obey(b: SessionStateBuilder, h: &HeaderMap) -> Result<SessionStateBuilder> {
    let g = |n: &str| h.get(n).map(|v| v.to_str().unwrap().to_string());
    match g("x-fail").as_deref() {
        Some("session") => exec_err!("cause:{}", g("x-sub").unwrap()),
        Some("rewrite") => {
            let m = format!("cause:{}", g("x-sub").unwrap());
            Ok(b.with_distributed_worker_plan_rewrite_handler(move |_: WorkerPlanRewriteEvent<'_>| -> Result<WorkerPlanRewriteEventResponse> { exec_err!("{}", m) }))
        }
        _ => Ok(b),
    }
}

#[derive(Default)]
struct Sub { st: String, tx: Option<mpsc::UnboundedSender<Result<CoordinatorToWorkerMsg>>>, h: Option<JoinHandle<()>>, drain: Option<JoinHandle<()>>, done: bool }

fn cause(e: &datafusion::error::DataFusionError) -> String {
    let t = e.to_string();
    match t.find("cause:") { Some(i) => t[i..].chars().take_while(|c| *c == ':' || c.is_alphanumeric()).collect(), None => format!("err {t}") }
}

pub async fn run(c: &Value) -> Value {
    let np = c["parts"].as_u64().unwrap() as usize;
    let ns = c["ns"].as_u64().unwrap() as usize;
    let grpc = c["grpc"].as_bool().unwrap();
    // leaf i-1 is the plan of submission i: partition p holds the row i*10+p
    let leaves = (1..=ns).map(|i| LeafSpec::parse(&json!({"name":format!("t{i}"),"cols":["a:i"],"parts":(0..np).map(|p| json!([[[i * 10 + p]]])).collect::<Vec<_>>()}))).collect();
    let sc = Scenario::new(leaves, vec![], false);
    let cl = Cluster::with_proxy(&sc, 1, grpc, |w| w, 1 << 20, true);
    *cl.inner.session_hook.lock().unwrap() = Some(Arc::new(|b, h, _| obey(b, h)));
    let ctx = coordinator(&cl, &json!({})).unwrap().task_ctx();
    let steps = c["steps"].as_array().unwrap();
    let subs: Arc<Mutex<HashMap<u64, Sub>>> = Default::default();
    let rds: Arc<Mutex<HashMap<u64, (String, Option<JoinHandle<()>>)>>> = Default::default();
    let mut out = vec![];
    for s in steps {
        let i = s["i"].as_u64().unwrap();
        let arg = &s["arg"];
        match s["op"].as_str().unwrap() {
            "submit" => submit(&cl, &sc, &ctx, &subs, i, arg["k"].as_u64().unwrap(), arg["kind"].as_str().unwrap(), grpc, true),
            "setup" => sc.gate_set(&format!("setup{i}"), 1),
            "exec" => {
                let h = reader(&cl, &ctx, &rds, i, arg["k"].as_u64().unwrap(), arg["a"].as_u64().unwrap() as usize, arg["b"].as_u64().unwrap() as usize);
                rds.lock().unwrap().entry(i).or_default().1 = Some(h);
            }
            "leave" => { let mut r = rds.lock().unwrap(); let e = r.get_mut(&i).unwrap(); e.1.take().unwrap().abort(); e.0 = "left".into(); }
            "nap" => tokio::time::sleep(std::time::Duration::from_secs(1)).await,
            "tick" => tokio::time::sleep(std::time::Duration::from_secs(90)).await,
            "vanish" => { let mut m = subs.lock().unwrap(); let e = m.get_mut(&i).unwrap(); e.tx = None; if let Some(h) = e.h.take() { h.abort(); } e.st = "vanished".into(); }
            "end" => {
                let mut m = subs.lock().unwrap();
                let e = m.get_mut(&i).unwrap();
                match arg["how"].as_str().unwrap() {
                    "fail" => { let _ = e.tx.as_ref().unwrap().send(exec_err!("the coordinator broke")); }
                    "drop" => { e.tx = None; if let Some(d) = e.drain.take() { d.abort(); } }
                    _ => e.tx = None,
                }
                e.st = "ended".into();
            }
            // the process of the coordinator and of every reader dies: all that is left of them is a closed connection
            "crash" => cl.inner.cut.lock().unwrap()[0].abort(),
            o => return json!({"harness_error": format!("op {o}")}),
        }
        settle().await;
        settle().await;
        let n = cl.tasks_running().await;
        let m = subs.lock().unwrap();
        let r = rds.lock().unwrap();
        out.push(json!({"subs": (1..=ns as u64).map(|i| m.get(&i).map(|x| x.st.clone()).unwrap_or("none".into())).collect::<Vec<_>>(),
                        "rds": (1..=c["nr"].as_u64().unwrap()).map(|i| r.get(&i).map(|x| x.0.clone()).unwrap_or("none".into())).collect::<Vec<_>>(), "n": n}));
    }
    let done: Vec<bool> = { let m = subs.lock().unwrap(); (1..=ns as u64).map(|i| m.get(&i).map(|x| x.done).unwrap_or(false)).collect() };
    // the right task context for every partition that was run
    let mut bad_ctx = vec![];
    for e in sc.take_log() {
        if e["ev"] == "tap" {
            let i: u64 = e["at"][0].as_str().unwrap().parse().unwrap();
            let k = steps.iter().find(|s| s["op"] == "submit" && s["i"] == json!(i)).unwrap()["arg"]["k"].as_u64().unwrap();
            if e["at"][1] != json!(key(k).task_number) || e["at"][2] != json!(tcount(k)) { bad_ctx.push(e.clone()); }
        }
    }
    sc.forget();
    json!({"res": out, "bad_ctx": bad_ctx, "done": done})
}

#[allow(clippy::too_many_arguments)]
fn submit(cl: &Cluster, sc: &Arc<Scenario>, ctx: &Arc<TaskContext>, subs: &Arc<Mutex<HashMap<u64, Sub>>>, i: u64, k: u64, kind: &str, grpc: bool, gated: bool) {
    let mut h = HeaderMap::new();
    h.insert("x-sub", HeaderValue::from_str(&i.to_string()).unwrap());
    h.insert("x-fail", HeaderValue::from_str(kind).unwrap());
    if gated { h.insert("x-gate", HeaderValue::from_str(&format!("setup{i}")).unwrap()); }
    let plan: Arc<dyn ExecutionPlan> = TapExec::new(sc.id, &i.to_string(), "", ScriptExec::new(sc, i as usize - 1, 0, 0, None));
    let mut bytes = MaybeEncoded::Decoded(plan).encode(ctx).unwrap();
    if kind == "decode" { bytes = b"\xff\xff\xffthis is no plan".to_vec(); }
    let req = SetPlanRequest { task_key: key(k), task_count: tcount(k), plan: MaybeEncoded::Encoded(bytes), work_unit_feed_declarations: vec![], target_worker_url: wurl(0), query_start_time_ns: 0 };
    let (tx, mut rx) = mpsc::unbounded_channel();
    let c2w: BoxStream<'static, Result<CoordinatorToWorkerMsg>> = futures::stream::poll_fn(move |cx| rx.poll_recv(cx)).boxed();
    subs.lock().unwrap().insert(i, Sub { st: "pending".into(), tx: Some(tx), ..Default::default() });
    let (cl2, ctx2, subs2) = (cl.clone(), Arc::clone(ctx), Arc::clone(subs));
    let jh = tokio::spawn(async move {
        let r = if grpc {
            let c2w = c2w.filter_map(|x| async move { x.ok() }).boxed();
            cl2.raw_channel(0).coordinator_channel(h, req, c2w, ExecutionPlanMetricsSet::new(), &ctx2).await
        } else {
            cl2.worker(0).coordinator_channel(h, req, c2w).await
        };
        let subs3 = Arc::clone(&subs2);
        let mut m = subs2.lock().unwrap();
        let e = m.get_mut(&i).unwrap();
        match r {
            Err(x) => { e.st = cause(&x); e.tx = None; }
            Ok(mut st) => {
                e.st = "ok".into();
                e.drain = Some(tokio::spawn(async move {
                    let mut bad = None;
                    while let Some(x) = st.next().await { if let Err(x) = x { bad = Some(cause(&x)); } }
                    let mut m = subs3.lock().unwrap();
                    let e = m.get_mut(&i).unwrap();
                    e.done = true;
                    // a stream that ends with an error is a refusal that came late
                    if let Some(b) = bad { if e.st == "ok" { e.st = b; } }
                }));
            }
        }
    });
    subs.lock().unwrap().get_mut(&i).unwrap().h = Some(jh);
}

fn reader(cl: &Cluster, ctx: &Arc<TaskContext>, rds: &Arc<Mutex<HashMap<u64, (String, Option<JoinHandle<()>>)>>>, r: u64, k: u64, a: usize, b: usize) -> JoinHandle<()> {
    rds.lock().unwrap().insert(r, ("pending".into(), None));
    let (cl, ctx, rds) = (cl.clone(), Arc::clone(ctx), Arc::clone(rds));
    tokio::spawn(async move {
        let st = match read(&cl, &ctx, k, a, b).await {
            Err(e) => cause(&e),
            Ok(per) => {
                // "rows:<submission>" when every partition holds exactly its row
                let id = per.first().and_then(|x| x.first()).map(|v| v / 10).unwrap_or(-1);
                let want: Vec<Vec<i64>> = (a..b).map(|p| vec![id * 10 + p as i64]).collect();
                if per == want { format!("rows:{id}") } else { format!("wrong rows {per:?}") }
            }
        };
        rds.lock().unwrap().get_mut(&r).unwrap().0 = st;
    })
}

async fn read(cl: &Cluster, ctx: &Arc<TaskContext>, k: u64, a: usize, b: usize) -> Result<Vec<Vec<i64>>> {
    let req = ExecuteTaskRequest { task_key: key(k), target_partition_start: a, target_partition_end: b, producer_head: ProducerHead::None };
    let streams = cl.raw_channel(0).execute_task(HeaderMap::new(), req, ExecutionPlanMetricsSet::new(), ctx).await?;
    let mut per = vec![];
    for s in streams {
        let bs: Vec<RecordBatch> = s.try_collect().await?;
        per.push(bs.iter().flat_map(from_batch).map(|r| r[0].unwrap_or(-1)).collect());
    }
    Ok(per)
}

/// Free running: many submissions and readers of the same keys on several threads. Which submission wins is open.
pub async fn race(c: &Value) -> Value {
    let np = c["parts"].as_u64().unwrap() as usize;
    let list = c["subs"].as_array().unwrap().clone();
    let leaves = (1..=list.len()).map(|i| LeafSpec::parse(&json!({"name":format!("t{i}"),"cols":["a:i"],"parts":(0..np).map(|p| json!([[[i * 10 + p]]])).collect::<Vec<_>>()}))).collect();
    let sc = Scenario::new(leaves, vec![], false);
    let grpc = c["grpc"].as_bool().unwrap();
    let cl = Cluster::new(&sc, 1, grpc);
    *cl.inner.session_hook.lock().unwrap() = Some(Arc::new(|b, h, _| obey(b, h)));
    let ctx = coordinator(&cl, &json!({})).unwrap().task_ctx();
    let subs: Arc<Mutex<HashMap<u64, Sub>>> = Default::default();
    let rds: Arc<Mutex<HashMap<u64, (String, Option<JoinHandle<()>>)>>> = Default::default();
    for (i, s) in list.iter().enumerate() {
        let (cl, sc, ctx, subs, s) = (cl.clone(), Arc::clone(&sc), Arc::clone(&ctx), Arc::clone(&subs), s.clone());
        tokio::spawn(async move {
            for _ in 0..s["d"].as_u64().unwrap() { tokio::task::yield_now().await; }
            submit(&cl, &sc, &ctx, &subs, i as u64 + 1, s["k"].as_u64().unwrap(), s["kind"].as_str().unwrap(), grpc, false);
        });
    }
    let rl = c["rds"].as_array().unwrap().clone();
    let mut hs = vec![];
    for (i, s) in rl.iter().enumerate() {
        for _ in 0..s["d"].as_u64().unwrap() { tokio::task::yield_now().await; }
        hs.push(reader(&cl, &ctx, &rds, i as u64 + 1, s["k"].as_u64().unwrap(), 0, np));
    }
    let t = tokio::time::timeout(std::time::Duration::from_secs(30), async { for h in hs { let _ = h.await; } }).await;
    for _ in 0..2000 {
        { let m = subs.lock().unwrap(); if m.len() == list.len() && m.values().all(|x| x.st != "pending") { break; } }
        tokio::time::sleep(std::time::Duration::from_millis(2)).await;
    }
    let st: Vec<String> = { let m = subs.lock().unwrap(); (1..=list.len() as u64).map(|i| m.get(&i).map(|x| x.st.clone()).unwrap_or("none".into())).collect() };
    // end everything: the worker has to forget every accepted task
    for x in subs.lock().unwrap().values_mut() { x.tx = None; }
    let mut n = 0;
    let keys: std::collections::HashSet<u64> = list.iter().map(|s| s["k"].as_u64().unwrap()).collect();
    let won: std::collections::HashSet<u64> = list.iter().zip(&st).filter(|(_, x)| *x == "ok").map(|(s, _)| s["k"].as_u64().unwrap()).collect();
    let floor = keys.len() - won.len();
    for _ in 0..2000 { n = cl.tasks_running().await; if n <= floor { break; } tokio::time::sleep(std::time::Duration::from_millis(1)).await; }
    sc.forget();
    json!({"subs": st, "rds": (1..=rl.len() as u64).map(|i| rds.lock().unwrap()[&i].0.clone()).collect::<Vec<_>>(), "timeout": t.is_err(), "left": n})
}

