//! Queries over real files (CSV, Parquet, hive-partitioned or sorted), and how their scans are dealt to tasks.
use crate::core::*;
use crate::d_sql::tables;
use datafusion::arrow::array::{Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema};
use datafusion::common::Result;
use datafusion::datasource::file_format::csv::CsvFormat;
use datafusion::datasource::file_format::parquet::ParquetFormat;
use datafusion::datasource::listing::ListingOptions;
use datafusion::datasource::physical_plan::FileScanConfig;
use datafusion::datasource::source::DataSourceExec;
use datafusion::parquet::arrow::ArrowWriter;
use datafusion::parquet::file::properties::WriterProperties;
use datafusion::physical_plan::{ExecutionPlan, displayable};
use datafusion::prelude::{SessionConfig, SessionContext, col};
use datafusion_distributed::{DistributedLeafExec, NetworkBoundaryExt};
use serde_json::{Value, json};
use std::sync::Arc;

fn schema() -> Arc<Schema> { Arc::new(Schema::new(vec![Field::new("k", DataType::Int64, true), Field::new("id", DataType::Int64, true)])) }

fn write(c: &Value) -> Result<()> {
    let dir = c["dir"].as_str().unwrap();
    for t in c["tables"].as_array().unwrap() {
        for (i, f) in t["files"].as_array().unwrap().iter().enumerate() {
            let mut d = format!("{dir}/{}", t["name"].as_str().unwrap());
            if let Some(h) = f["h"].as_i64().filter(|_| t["hive"] == true) { d = format!("{d}/h={h}"); }
            std::fs::create_dir_all(&d)?;
            let rows: Vec<(i64, i64)> = f["rows"].as_array().unwrap().iter().map(|r| (r[0].as_i64().unwrap(), r[1].as_i64().unwrap())).collect();
            if t["fmt"] == "csv" {
                std::fs::write(format!("{d}/f{i}.csv"), rows.iter().map(|(k, v)| format!("{k},{v}\n")).collect::<String>())?;
            } else {
                let b = RecordBatch::try_new(schema(), vec![Arc::new(rows.iter().map(|r| r.0).collect::<Int64Array>()), Arc::new(rows.iter().map(|r| r.1).collect::<Int64Array>())])?;
                let p = WriterProperties::builder().set_max_row_group_row_count(Some(f["rg"].as_u64().unwrap_or(1000) as usize)).build();
                let mut w = ArrowWriter::try_new(std::fs::File::create(format!("{d}/f{i}.parquet"))?, schema(), Some(p))?;
                w.write(&b)?;
                w.close()?;
            }
        }
    }
    Ok(())
}

async fn register(ctx: &SessionContext, c: &Value) -> Result<()> {
    for t in c["tables"].as_array().unwrap() {
        let n = t["name"].as_str().unwrap();
        let mut o = if t["fmt"] == "csv" { ListingOptions::new(Arc::new(CsvFormat::default().with_has_header(false))).with_file_extension(".csv") }
                    else { ListingOptions::new(Arc::new(ParquetFormat::default())).with_file_extension(".parquet") };

        if t["hive"] == true { o = o.with_table_partition_cols(vec![("h".into(), DataType::Int64)]); }
        if t["sorted"] == true { o = o.with_file_sort_order(vec![vec![col("id").sort(true, true)]]); }
        ctx.register_listing_table(n, format!("{}/{n}/", c["dir"].as_str().unwrap()), o, Some(schema()), None).await?;
    }
    Ok(())
}

/// Writes the files of the case and registers its tables.
pub async fn prepare(ctx: &SessionContext, c: &Value) -> Result<()> { write(c)?; register(ctx, c).await }

fn groups(p: &Arc<dyn ExecutionPlan>) -> Option<Value> {
    let s = p.downcast_ref::<DataSourceExec>()?;
    let f = s.data_source().downcast_ref::<FileScanConfig>()?;
    Some(json!(f.file_groups.iter().map(|g| g.files().iter().map(|f| {
        let (a, b) = f.range.as_ref().map(|r| (r.start, r.end)).unwrap_or((0, f.object_meta.size as i64));
        json!([f.object_meta.location.to_string(), a, b])
    }).collect::<Vec<_>>()).collect::<Vec<_>>()))
}

/// Every file scan of the plan: the original groups and those of each task.
fn scans(p: &Arc<dyn ExecutionPlan>, tasks: usize, out: &mut Vec<Value>) {
    if let Some(d) = p.downcast_ref::<DistributedLeafExec>() {
        if let Some(g) = groups(d.original()) {
            let parted = d.original().downcast_ref::<DataSourceExec>().and_then(|s| s.data_source().downcast_ref::<FileScanConfig>()).is_some_and(|f| f.output_partitioning.is_some());
            out.push(json!({"tasks": tasks, "orig": g, "parted": parted, "variants": d.variants().iter().map(|v| groups(v).unwrap_or(json!([]))).collect::<Vec<_>>()}));
        }
        return;
    }
    if let Some(b) = p.as_network_boundary() {
        if let Some(l) = b.input_stage().local_plan() { scans(l, b.input_stage().task_count(), out); }
        return;
    }
    if let Some(g) = groups(p) { out.push(json!({"tasks": tasks, "orig": g, "parted": false, "variants": [], "bare": true})); }
    // every branch of an isolated union has a task count of its own
    let tasks = if ["DistributedUnionExec", "ChildrenIsolatorUnionExec"].contains(&p.name()) { 0 } else { tasks };
    for c in p.children() { scans(c, tasks, out); }
}

pub async fn run(c: &Value) -> Value {
    let sc = Scenario::from_case(c);
    let r = inner(c, &sc).await;
    sc.forget();
    let _ = std::fs::remove_dir_all(c["dir"].as_str().unwrap());
    match r { Ok(v) => v, Err(e) => json!({"err": format!("{e}"), "phase": "plan"}) }
}

/// All partitions at once: joins with dynamic filters wait for one another.
async fn collect(plan: Arc<dyn ExecutionPlan>, ctx: &SessionContext) -> Value {
    match tokio::time::timeout(std::time::Duration::from_secs(40), datafusion::physical_plan::collect(plan, ctx.task_ctx())).await {
        Err(_) => json!({"hang": true}),
        Ok(Err(e)) => json!({"err": e.to_string()}),
        Ok(Ok(bs)) => json!({"rows": bs.iter().flat_map(from_batch).collect::<Vec<_>>()}),
    }
}

async fn plain(c: &Value, sc: &Arc<Scenario>, same: bool) -> Result<Value> {
    let mut conf = SessionConfig::new().with_target_partitions(1);
    if same {
        conf = conf.with_target_partitions(c["cfg"]["parts"].as_u64().unwrap_or(2) as usize);
        if let Some(o) = c["cfg"]["opts"].as_object() { for (k, v) in o { conf.options_mut().set(k, v.as_str().unwrap())?; } }
    }
    let ctx = SessionContext::new_with_config(conf);
    tables(&ctx, sc)?;
    register(&ctx, c).await?;
    let p = ctx.sql(c["sql"].as_str().unwrap()).await?.create_physical_plan().await?;
    Ok(collect(p, &ctx).await)
}

async fn inner(c: &Value, sc: &Arc<Scenario>) -> Result<Value> {
    let cfg = &c["cfg"];
    write(c)?;
    let mut out = json!({"one": plain(c, sc, false).await.unwrap_or_else(|e| json!({"err": e.to_string()})), "same": plain(c, sc, true).await.unwrap_or_else(|e| json!({"err": e.to_string()}))});
    let cl = Cluster::new(sc, cfg["workers"].as_u64().unwrap_or(2) as usize, cfg["grpc"].as_bool().unwrap_or(false));
    let ctx = SessionContext::from(coordinator_builder(&cl, cfg, None)?.build());
    tables(&ctx, sc)?;
    register(&ctx, c).await?;
    let plan = match ctx.sql(c["sql"].as_str().unwrap()).await?.create_physical_plan().await {
        Ok(p) => p,
        Err(e) => { out["err"] = json!(e.to_string()); out["phase"] = json!("plan"); return Ok(out); }
    };
    let mut s = vec![];
    let root = plan.downcast_ref::<datafusion_distributed::DistributedExec>().is_some();
    scans(&plan, 1, &mut s);
    if c["want_plan"] == true { out["phys"] = json!(displayable(plan.as_ref()).indent(false).to_string()); out["plan"] = json!(datafusion_distributed::display_plan_ascii(plan.as_ref(), false)); }
    let r = collect(Arc::clone(&plan), &ctx).await;
    for (k, v) in r.as_object().unwrap() { out[k] = v.clone(); }
    out["scans"] = json!(s);
    out["dist"] = json!(root);
    settle().await;
    Ok(out)
}
