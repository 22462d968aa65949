#![feature(let_chains)]
mod cat;
mod ddl;
mod dml;
mod repl;
mod srv;

/// Warnings of the code go to the log of the run.
struct Warnings;
struct Message(String);
impl tracing::field::Visit for Message {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        if f.name() == "message" {
            self.0 = format!("{v:?}");
        }
    }
}
impl tracing::Subscriber for Warnings {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        *m.level() <= tracing::Level::WARN && m.is_event()
    }
    fn max_level_hint(&self) -> Option<tracing::level_filters::LevelFilter> {
        Some(tracing::level_filters::LevelFilter::WARN)
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::Id {
        tracing::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::Id, _: &tracing::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        if asim::active() {
            let mut m = Message(String::new());
            e.record(&mut m);
            m.0.truncate(m.0.char_indices().nth(600).map_or(m.0.len(), |x| x.0));
            asim::note(format!("        warns: {}", m.0.replace('\n', " ")));
        }
    }
    fn enter(&self, _: &tracing::Id) {}
    fn exit(&self, _: &tracing::Id) {}
}

fn main() {
    let _ = tracing::subscriber::set_global_default(Warnings);
    std::env::set_var("RAYON_NUM_THREADS", "1");
    std::env::set_var("DATAFUSION_EXECUTION_TARGET_PARTITIONS", "1");
    // seeds that are drawn once per process
    let _ = asim::isolated(|| std::hash::BuildHasher::hash_one(&ahash::RandomState::new(), 1));
    let usual = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if asim::active() {
            asim::note(format!("        panic: {i}"))
        } else {
            usual(i)
        }
    }));
    simcore::main_for::<FullSim>();
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
#[serde(untagged)]
enum Plan {
    Repl(repl::Plan),
    Dml(dml::Plan),
    Ddl(ddl::Plan),
}
struct FullSim;
impl FullSim {
    fn execute(prop: &str, plan: &Plan, d: simcore::Decider) -> simcore::RunResult {
        match plan {
            Plan::Repl(p) => repl::run(prop, p, d),
            Plan::Dml(p) => dml::run(prop, p, d),
            Plan::Ddl(p) => ddl::run(prop, p, d),
        }
    }
}
impl simcore::Sim for FullSim {
    type Plan = Plan;
    const NAME: &'static str = "full-sim";
    fn gen(prop: &str, rng: &mut simcore::Rng, index: u64, thorough: bool) -> Plan {
        match prop {
            "D03" | "D04" => Plan::Ddl(ddl::gen(prop, rng, index, thorough)),
            _ if prop.starts_with('D') => Plan::Dml(dml::gen(prop, rng, index, thorough)),
            _ => Plan::Repl(repl::gen(prop, rng, index, thorough)),
        }
    }
    fn run(prop: &str, plan: &Plan, d: simcore::Decider) -> simcore::RunResult {
        // What is set up once per process draws from the seed of the first run: not of one that counts.
        static WARM: std::sync::Once = std::sync::Once::new();
        WARM.call_once(|| {
            for i in 0..3 {
                let mut rng = simcore::Rng::new(i);
                let p = Self::gen(prop, &mut rng, i, false);
                Self::execute(prop, &p, simcore::Decider::seeded(i));
            }
        });
        Self::execute(prop, plan, d)
    }
    fn shrink(plan: &Plan) -> Vec<Plan> {
        match plan {
            Plan::Repl(p) => repl::shrink(p).into_iter().map(Plan::Repl).collect(),
            Plan::Dml(p) => dml::shrink(p).into_iter().map(Plan::Dml).collect(),
            Plan::Ddl(p) => ddl::shrink(p).into_iter().map(Plan::Ddl).collect(),
        }
    }
    fn meta(prop: &str) -> simcore::Meta {
        match prop {
            "D03" | "D04" => ddl::meta(prop),
            _ if prop.starts_with('D') => dml::meta(prop),
            _ => repl::meta(prop),
        }
    }
}
