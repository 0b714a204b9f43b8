mod core;
mod wuf;
mod tree;
mod errs;
mod plan;
mod d_sql;
mod d_bcast;
mod d_task;
mod d_conn;
mod d_files;
mod d_life;
mod d_route;
mod d_ext;

use futures::FutureExt;
use serde_json::{Value, json};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

async fn run_case(c: &Value) -> Value {
    match c["driver"].as_str().unwrap_or("") {
        "sql" => d_sql::run(c).await,
        "single" => d_sql::single(c).await,
        "files" => d_files::run(c).await,
        "task" => d_task::run(c).await,
        "race" => d_task::race(c).await,
        "conn" => d_conn::run(c).await,
        "connfree" => d_conn::free(c).await,
        "ext" => d_ext::run(c).await,
        "route" => d_route::run(c).await,
        "life" => d_life::run(c).await,
        "bcast" => d_bcast::run(c).await,
        d => json!({"harness_error": format!("unknown driver {d}")}),
    }
}

/// ddverif CASES.ndjson OUT.ndjson [threads] [seconds per case]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cases: Vec<Value> = std::fs::read_to_string(&a[1]).unwrap().lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap())));
    let threads: usize = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(8);
    let limit = Duration::from_secs(a.get(4).and_then(|x| x.parse().ok()).unwrap_or(60));
    let quiet = std::env::var("DDVERIF_PANICS").is_err();
    if quiet { std::panic::set_hook(Box::new(|_| {})); }
    let n = cases.len();
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let busy: Arc<Vec<Mutex<Option<(usize, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (cases, next, out, busy) = (Arc::clone(&cases), Arc::clone(&next), Arc::clone(&out), Arc::clone(&busy));
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= n { break; }
            *busy[t].lock().unwrap() = Some((i, Instant::now()));
            let c = &cases[i];
            let mut b = if c["mt"].as_bool().unwrap_or(false) {
                let mut b = tokio::runtime::Builder::new_multi_thread(); b.worker_threads(3); b
            } else {
                let mut b = tokio::runtime::Builder::new_current_thread(); b.start_paused(true); b
            };
            let rt = b.enable_all().thread_stack_size(16 << 20).build().unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(std::panic::AssertUnwindSafe(run_case(c)).catch_unwind())));
            let mut v = match r { Ok(Ok(v)) => v, Ok(Err(e)) | Err(e) => json!({"panic": panic_text(e)}) };
            rt.shutdown_background();
            v["id"] = c["id"].clone();
            *busy[t].lock().unwrap() = None;
            let mut o = out.lock().unwrap();
            writeln!(o, "{v}").unwrap();
        }).unwrap());
    }
    // real-time watchdog: a case that does not come back is data, not a tool failure
    loop {
        std::thread::sleep(Duration::from_millis(100));
        if hs.iter().all(|h| h.is_finished()) { break; }
        for b in busy.iter() {
            if let Some((i, at)) = *b.lock().unwrap() && at.elapsed() > limit {
                let mut o = out.lock().unwrap();
                writeln!(o, "{}", json!({"id": cases[i]["id"], "stuck": true, "seconds": limit.as_secs()})).unwrap();
                o.flush().unwrap();
                std::process::exit(3);
            }
        }
    }
    out.lock().unwrap().flush().unwrap();
}
