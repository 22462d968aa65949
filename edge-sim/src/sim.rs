use crate::{files, pool, wasm};
use serde::{Deserialize, Serialize};
use simcore::{Decider, Meta, Rng, RunResult, Sim};

#[derive(Serialize, Deserialize, Clone)]
pub enum Plan {
    F(files::Plan),
    M(pool::Plan),
    W(wasm::Plan),
}

pub struct EdgeSim;
impl Sim for EdgeSim {
    type Plan = Plan;
    const NAME: &'static str = "edge-sim";
    fn gen(prop: &str, rng: &mut Rng, index: u64, thorough: bool) -> Plan {
        match prop {
            "F01" => Plan::F(files::gen(rng, index, thorough)),
            "M01" => Plan::M(pool::gen(rng, index, thorough)),
            _ => Plan::W(wasm::gen(prop, rng, index, thorough)),
        }
    }
    fn run(prop: &str, plan: &Plan, d: Decider) -> RunResult {
        match plan {
            Plan::F(p) => files::run(p, d),
            Plan::M(p) => pool::run(p, d),
            Plan::W(p) => wasm::run(prop, p, d),
        }
    }
    fn shrink(plan: &Plan) -> Vec<Plan> {
        match plan {
            Plan::F(p) => files::shrink(p).into_iter().map(Plan::F).collect(),
            Plan::M(p) => pool::shrink(p).into_iter().map(Plan::M).collect(),
            Plan::W(p) => wasm::shrink(p).into_iter().map(Plan::W).collect(),
        }
    }
    fn meta(prop: &str) -> Meta {
        let mut m = Meta { level: "exploration", quick_runs: 2_000_000, thorough_runs: 100_000_000, quick_secs: 40, thorough_secs: 3000, batch: 400, ..Default::default() };
        match prop {
            "F01" => {
                m.rule = "runs with several uploads, or a crash, an injected fault or a move between devices".into();
                m.state_measure = "hash of source and target sizes and of where every upload is, at every step; plus hash of the schedule so far".into();
                m.real = vec!["src/object_store/utils.rs", "tokio::fs, std::fs", "Linux file system of the scratch directory"];
                m.stub = vec!["thread scheduling, which calls fail or transfer less, device boundaries (interposed C library calls)", "process kill: every later call fails without effect"];
                m.assumptions = vec!["a crash is the death of the process: what was written reaches the disk (the store does not synchronise objects it puts, either)".into(), "targets of concurrent uploads differ".into()];
                m.probes = vec!["fault:process crash", "fault:short transfer", "cross-device moves"];
            }
            "M01" => {
                m.rule = "runs with several consumers and more than two quiet moments".into();
                m.state_measure = "hash of where every consumer is, the metric and the reserved bytes, at every step; plus hash of the schedule so far".into();
                m.real = vec!["src/memory_pool.rs", "DataFusion GreedyMemoryPool, FairSpillPool, UnboundedMemoryPool, MemoryReservation"];
                m.stub = vec!["metrics recorder", "thread scheduling (gates around every pool and metric operation)"];
                m.assumptions = vec!["one pool per process, as the server has".into(), "pool and metric operations are atomic".into()];
                m.probes = vec!["limit refusals", "fault:refused allocation"];
            }
            _ => wasm::meta(prop, &mut m),
        }
        m
    }
}
