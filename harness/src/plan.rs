//! Physical plans from JSON, and a query planner that returns them unchanged to the distributed planner.
use crate::core::*;
use async_trait::async_trait;
use datafusion::arrow::compute::SortOptions;
use datafusion::arrow::datatypes::Schema;
use datafusion::common::{JoinSide, JoinType, NullEquality, Result, exec_err};
use datafusion::execution::context::QueryPlanner;
use datafusion::logical_expr::{LogicalPlan, Operator};
use datafusion::physical_expr::expressions::{Column, binary, lit};
use datafusion::physical_expr::{LexOrdering, Partitioning, PhysicalExpr, PhysicalSortExpr};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::joins::utils::{ColumnIndex, JoinFilter};
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode, SortMergeJoinExec};
use datafusion::physical_plan::limit::{GlobalLimitExec, LocalLimitExec};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion_distributed::{BroadcastExec, NetworkBroadcastExec, NetworkCoalesceExec, NetworkShuffleExec};
use serde_json::Value;
use std::sync::Arc;

fn col(p: &Arc<dyn ExecutionPlan>, i: usize) -> Arc<dyn PhysicalExpr> { Arc::new(Column::new(p.schema().field(i).name(), i)) }

/// A residual join filter: the second columns of both sides have the same parity.
fn parity(l: &Arc<dyn ExecutionPlan>, r: &Arc<dyn ExecutionPlan>) -> Result<JoinFilter> {
    let (lf, rf) = (l.schema().field(1).clone(), r.schema().field(1).clone());
    let schema = Arc::new(Schema::new(vec![lf.with_name("a").with_nullable(true), rf.with_name("b").with_nullable(true)]));
    let sum = binary(Arc::new(Column::new("a", 0)), Operator::Plus, Arc::new(Column::new("b", 1)), &schema)?;
    let rem = binary(sum, Operator::Modulo, lit(2i64), &schema)?;
    let e = binary(rem, Operator::Eq, lit(0i64), &schema)?;
    Ok(JoinFilter::new(e, vec![ColumnIndex { index: 1, side: JoinSide::Left }, ColumnIndex { index: 1, side: JoinSide::Right }], schema))
}

pub fn jtype(s: &str) -> JoinType {
    match s {
        "Left" => JoinType::Left, "Right" => JoinType::Right, "Full" => JoinType::Full,
        "LeftSemi" => JoinType::LeftSemi, "LeftAnti" => JoinType::LeftAnti, "LeftMark" => JoinType::LeftMark,
        "RightSemi" => JoinType::RightSemi, "RightAnti" => JoinType::RightAnti, "RightMark" => JoinType::RightMark,
        _ => JoinType::Inner,
    }
}

pub fn build(sc: &Arc<Scenario>, v: &Value) -> Result<Arc<dyn ExecutionPlan>> {
    let inp = |k: &str| build(sc, &v[k]);
    let u = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
    Ok(match v["op"].as_str().unwrap() {
        "leaf" => ScriptExec::new(sc, u("i"), 0, 0, None),
        "node" => sc.nodes.lock().unwrap().get(v["name"].as_str().unwrap()).cloned().unwrap(),
        "wuf" => crate::wuf::build(sc, v)?,
        "tap" => TapExec::new(sc.id, v["label"].as_str().unwrap(), v["mode"].as_str().unwrap_or(""), inp("in")?),
        "hash" => {
            let i = inp("in")?;
            let e = v["cols"].as_array().map(|a| a.iter().map(|c| col(&i, c.as_u64().unwrap() as usize)).collect()).unwrap_or_else(|| vec![col(&i, 0)]);
            Arc::new(RepartitionExec::try_new(i, Partitioning::Hash(e, u("n")))?)
        }
        "rr" => Arc::new(RepartitionExec::try_new(inp("in")?, Partitioning::RoundRobinBatch(u("n")))?),
        "coalesce" => Arc::new(CoalescePartitionsExec::new(inp("in")?).with_fetch(v["fetch"].as_u64().map(|x| x as usize))),
        "spm" => {
            let i = inp("in")?;
            let s = PhysicalSortExpr::new(col(&i, u("col")), SortOptions::default());
            Arc::new(SortPreservingMergeExec::new(LexOrdering::new(vec![s]).unwrap(), i).with_fetch(v["fetch"].as_u64().map(|x| x as usize)))
        }
        "sort" => {
            let i = inp("in")?;
            let s = PhysicalSortExpr::new(col(&i, u("col")), SortOptions::default());
            Arc::new(SortExec::new(LexOrdering::new(vec![s]).unwrap(), i).with_preserve_partitioning(v["each"].as_bool().unwrap_or(false)).with_fetch(v["fetch"].as_u64().map(|x| x as usize)))
        }
        "smj" => {
            let (l, r) = (inp("l")?, inp("r")?);
            let f = if v["filt"].as_bool().unwrap_or(false) { Some(parity(&l, &r)?) } else { None };
            Arc::new(SortMergeJoinExec::try_new(Arc::clone(&l), Arc::clone(&r), vec![(col(&l, 0), col(&r, 0))], f, jtype(v["type"].as_str().unwrap_or("Inner")), vec![SortOptions::default()], NullEquality::NullEqualsNothing)?)
        }
        "glimit" => Arc::new(GlobalLimitExec::new(inp("in")?, u("skip"), v["fetch"].as_u64().map(|x| x as usize))),
        "llimit" => Arc::new(LocalLimitExec::new(inp("in")?, u("fetch"))),
        "union" => UnionExec::try_new(v["ins"].as_array().unwrap().iter().map(|x| build(sc, x)).collect::<Result<Vec<_>>>()?)?,
        "hj" => {
            let (l, r) = (inp("l")?, inp("r")?);
            let on = vec![(col(&l, 0), col(&r, 0))];
            let f = if v["filt"].as_bool().unwrap_or(false) { Some(parity(&l, &r)?) } else { None };
            let mode = match v["mode"].as_str() { Some("part") => PartitionMode::Partitioned, _ => PartitionMode::CollectLeft };
            Arc::new(HashJoinExec::try_new(l, r, on, f, &jtype(v["type"].as_str().unwrap_or("Inner")), None, mode, NullEquality::NullEqualsNothing, v["null_aware"].as_bool().unwrap_or(false))?)
        }
        "nlj" => Arc::new(NestedLoopJoinExec::try_new(inp("l")?, inp("r")?, if v["filt"].as_bool().unwrap_or(false) { Some(parity(&inp("l")?, &inp("r")?)?) } else { None }, &jtype(v["type"].as_str().unwrap_or("Inner")), None)?),
        "cross" => Arc::new(CrossJoinExec::new(inp("l")?, inp("r")?)),
        "nshuffle" => Arc::new(NetworkShuffleExec::try_new(inp("in")?, u("tasks"))?),
        "ngather" => Arc::new(NetworkCoalesceExec::try_new(inp("in")?, u("tasks"), u("consumers"))?),
        "nbcast" => Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(inp("in")?, 1)), u("tasks"))?),
        o => return exec_err!("unknown op {o}"),
    })
}

#[derive(Debug)]
pub struct FixedPlanner(pub Arc<dyn ExecutionPlan>);
#[async_trait]
impl QueryPlanner for FixedPlanner {
    async fn create_physical_plan(&self, _: &LogicalPlan, _: &dyn datafusion::catalog::Session) -> Result<Arc<dyn ExecutionPlan>> { datafusion::physical_plan::execution_plan::reset_plan_states(Arc::clone(&self.0)) }
}
