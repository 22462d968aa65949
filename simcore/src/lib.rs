//! Shared machinery of the simulators: the PRNG, the decider through which every run-time choice
//! goes, the batch runner, the minimiser, replay files, evidence and verdict lines.

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod rng;
pub use rng::Rng;

/// Every choice made while a run executes. In seeded mode the value comes from the run's PRNG; in
/// trace mode from a recorded list, and is 0 ("the unsurprising choice") once that is exhausted.
pub struct Decider {
    rng: Rng,
    trace: Option<Vec<u32>>,
    pub log: Vec<u32>,
}

impl Decider {
    pub fn seeded(seed: u64) -> Self {
        Decider { rng: Rng::new(seed), trace: None, log: vec![] }
    }
    pub fn traced(trace: Vec<u32>) -> Self {
        Decider { rng: Rng::new(0), trace: Some(trace), log: vec![] }
    }
    /// A value below `n`, by default drawn by `f`.
    pub fn pick(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match &self.trace {
            Some(t) => t.get(self.log.len()).copied().unwrap_or(0),
            None => f(&mut self.rng),
        };
        let v = if n == 0 { 0 } else { v.min(n - 1) };
        self.log.push(v);
        v
    }
    pub fn choose(&mut self, n: u32) -> u32 {
        self.pick(n, |r| r.below(n.max(1) as u64) as u32)
    }
    /// True with probability `permille`/1000.
    pub fn chance(&mut self, permille: u32) -> bool {
        if permille == 0 {
            return false;
        }
        self.pick(2, |r| (r.below(1000) < permille as u64) as u32) == 1
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    /// Stable class: minimisation keeps it, known findings are matched on it.
    pub kind: String,
    pub detail: String,
}

#[derive(Default, Serialize, Deserialize, Clone, Debug)]
pub struct RunResult {
    pub violation: Option<Violation>,
    /// Counters: operations, faults fired, probes.
    pub stats: BTreeMap<String, u64>,
    /// Hashes of the states / interleavings this run went through (the "distinct" measure).
    pub states: Vec<u64>,
    /// Whether the run did what the property's rule calls non-trivial.
    pub nontrivial: bool,
    pub log: Vec<String>,
    pub sim_us: u64,
    pub steps: u64,
    #[serde(default)]
    pub decisions: Vec<u32>,
}

impl RunResult {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_default() += n;
    }
    pub fn log_hash(&self) -> u64 {
        let mut h = Fnv::new();
        for l in &self.log {
            h.write(l.as_bytes());
            h.write(b"\n");
        }
        h.write(format!("{:?}", self.decisions).as_bytes());
        h.write(format!("{:?}", self.violation).as_bytes());
        h.0
    }
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf29ce484222325)
    }
    pub fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv::new();
    h.write(s.as_bytes());
    h.0
}

pub trait Sim {
    type Plan: Serialize + DeserializeOwned + Clone;
    const NAME: &'static str;
    /// What a plan looks like for this property; `index` lets a few fixed shapes be included.
    fn gen(prop: &str, rng: &mut Rng, index: u64, thorough: bool) -> Self::Plan;
    fn run(prop: &str, plan: &Self::Plan, d: Decider) -> RunResult;
    /// Simpler plans, biggest simplification first.
    fn shrink(plan: &Self::Plan) -> Vec<Self::Plan>;
    fn meta(prop: &str) -> Meta;
}

#[derive(Clone, Default)]
pub struct Meta {
    pub level: &'static str,
    pub rule: String,
    pub state_measure: String,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    pub assumptions: Vec<String>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// Seconds after which a batch stops starting new runs.
    pub quick_secs: u64,
    pub thorough_secs: u64,
    /// Counters that must not stay zero in a quick batch ("rare condition was hit").
    pub probes: Vec<&'static str>,
    pub batch: u64,
}

#[derive(Serialize, Deserialize)]
struct Replay<P> {
    simulator: String,
    property: String,
    seed: u64,
    run: u64,
    kind: String,
    detail: String,
    minimised: bool,
    #[serde(default)]
    thorough: bool,
    plan: P,
    decisions: Vec<u32>,
    #[serde(default)]
    log: Vec<String>,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = Fnv::new();
    h.write(&seed.to_le_bytes());
    h.write(prop.as_bytes());
    h.write(&i.to_le_bytes());
    h.0
}

fn plan_and_decider<S: Sim>(prop: &str, seed: u64, i: u64, thorough: bool) -> (S::Plan, Decider) {
    let s = run_seed(seed, prop, i);
    let mut rng = Rng::new(s);
    let plan = S::gen(prop, &mut rng, i, thorough);
    (plan, Decider::seeded(s ^ 0x5bd1e995_9e3779b9))
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Start(u64),
    Done { run: u64, hash: u64, nontrivial: bool, plan_hash: u64, states: Vec<u64>, stats: BTreeMap<String, u64>, sim_us: u64, steps: u64, sample: Option<serde_json::Value> },
    Bad { run: u64, violation: Violation, decisions: Vec<u32>, log: Vec<String> },
    Hang(u64),
    End,
}

fn emit(m: &Msg) {
    // One line per message, marked: code under test may write to stdout too.
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "\n@@{}", serde_json::to_string(m).unwrap());
    let _ = out.flush();
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static STARTED_MS: AtomicU64 = AtomicU64::new(0);
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64
}

pub fn hang_ms() -> u64 {
    std::env::var("SIM_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(90_000)
}

fn watchdog() {
    now_ms();
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CURRENT.load(Ordering::SeqCst);
            if c != u64::MAX && now_ms().saturating_sub(STARTED_MS.load(Ordering::SeqCst)) > hang_ms() {
                emit(&Msg::Hang(c));
                unsafe { _exit(3) };
            }
        })
        .unwrap();
}
extern "C" {
    fn _exit(c: i32) -> !;
}

fn guarded_run<S: Sim>(prop: &str, plan: &S::Plan, d: Decider, idx: u64) -> RunResult {
    STARTED_MS.store(now_ms(), Ordering::SeqCst);
    CURRENT.store(idx, Ordering::SeqCst);
    let r = S::run(prop, plan, d);
    CURRENT.store(u64::MAX, Ordering::SeqCst);
    r
}

fn worker<S: Sim>(prop: &str, seed: u64, from: u64, to: u64, step: u64, thorough: bool) {
    watchdog();
    let mut i = from;
    while i < to {
        emit(&Msg::Start(i));
        let (plan, d) = plan_and_decider::<S>(prop, seed, i, thorough);
        let plan_json = serde_json::to_value(&plan).unwrap();
        let r = guarded_run::<S>(prop, &plan, d, i);
        let hash = r.log_hash();
        if let Ok(dir) = std::env::var("SIM_DUMP") {
            let _ = std::fs::write(format!("{dir}/{i}-{}", std::process::id()), format!("{}\n{:?}\n{:?}\n", r.log.join("\n"), r.decisions, r.violation));
        }
        if let Some(v) = &r.violation {
            emit(&Msg::Bad { run: i, violation: v.clone(), decisions: r.decisions.clone(), log: r.log.clone() });
        }
        emit(&Msg::Done {
            run: i, hash, nontrivial: r.nontrivial,
            plan_hash: hash_str(&plan_json.to_string()), states: r.states, stats: r.stats, sim_us: r.sim_us, steps: r.steps,
            sample: if i < 3 { Some(serde_json::json!({"run": i, "plan": plan_json, "log_tail": r.log.iter().rev().take(12).rev().collect::<Vec<_>>() })) } else { None },
        });
        i += step;
    }
    emit(&Msg::End);
    unsafe { _exit(0) };
}

impl Agg {
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.nontrivial.extend(o.nontrivial);
        self.states.extend(o.states);
        for (k, v) in o.stats {
            let e = self.stats.entry(k.clone()).or_default();
            *e = if k.starts_with("linearizer_conf") { v.max(*e) } else { *e + v };
        }
        self.sim_us += o.sim_us;
        self.steps += o.steps;
        self.samples.extend(o.samples);
        self.hashes.extend(o.hashes);
    }
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    states: BTreeSet<u64>,
    stats: BTreeMap<String, u64>,
    sim_us: u64,
    steps: u64,
    samples: Vec<serde_json::Value>,
    bad: Vec<(u64, Violation, Vec<u32>, Vec<String>)>,
    hashes: BTreeMap<u64, u64>,
    died: Vec<(u64, String)>,
}

/// Known findings: `known: property=<id> kind=<kind> <what fails>` lines.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                let k = it.next().unwrap_or("").trim_start_matches("kind=").to_string();
                let what = it.next().unwrap_or("").to_string();
                if p == prop {
                    v.push((k, what));
                }
            }
        }
    }
    v
}

fn run_batches<S: Sim>(prop: &str, seed: u64, from: u64, runs: u64, secs: u64, thorough: bool, workers: usize, batch: u64, stop_on_bad: bool) -> Agg {
    let exe = std::env::current_exe().unwrap();
    let queue: VecDeque<(u64, u64)> = {
        let mut q = VecDeque::new();
        let mut a = from;
        while a < from + runs {
            let b = (a + batch).min(from + runs);
            q.push_back((a, b));
            a = b;
        }
        q
    };
    let queue = Arc::new(Mutex::new(queue));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let t0 = Instant::now();
    let known: Vec<String> = known_findings(prop).into_iter().map(|x| x.0).collect();
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let (queue, agg, stop, exe, prop, known) = (queue.clone(), agg.clone(), stop.clone(), exe.clone(), prop.to_string(), known.clone());
            std::thread::spawn(move || loop {
                if stop.load(Ordering::SeqCst) || t0.elapsed().as_secs() >= secs {
                    break;
                }
                let Some((a, b)) = queue.lock().unwrap().pop_front() else { break };
                let mut cmd = Command::new(&exe);
                cmd.args(["worker", &prop, &seed.to_string(), &a.to_string(), &b.to_string(), if thorough { "thorough" } else { "quick" }])
                    .stdout(Stdio::piped())
                    .stderr(if std::env::var("SIM_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
                    .stdin(Stdio::null());
                let mut child = cmd.spawn().expect("spawn worker");
                let out = BufReader::new(child.stdout.take().unwrap());
                let mut cur = None;
                let mut ended = false;
                let mut hang = None;
                for line in out.split(b'\n') {
                    let Ok(line) = line else { break };
                    let line = String::from_utf8_lossy(&line).into_owned();
                    let Some(js) = line.strip_prefix("@@") else { continue };
                    let Ok(m) = serde_json::from_str::<Msg>(js) else { continue };
                    match m {
                        Msg::Start(i) => cur = Some(i),
                        Msg::Done { run, hash, nontrivial, plan_hash: _, states, stats, sim_us, steps, sample } => {
                            cur = None;
                            let mut g = agg.lock().unwrap();
                            g.runs += 1;
                            if nontrivial {
                                g.nontrivial.insert(hash);
                            }
                            g.states.extend(states);
                            for (k, v) in stats {
                                if let Some(k) = k.strip_prefix("max:") {
                                    let e = g.stats.entry(k.to_string()).or_default();
                                    *e = (*e).max(v);
                                } else {
                                    *g.stats.entry(k).or_default() += v;
                                }
                            }
                            g.sim_us += sim_us;
                            g.steps += steps;
                            g.hashes.insert(run, hash);
                            if let Some(s) = sample {
                                g.samples.push(s);
                            }
                            if t0.elapsed().as_secs() >= secs || stop.load(Ordering::SeqCst) {
                                let _ = child.kill();
                                ended = true;
                                break;
                            }
                        }
                        Msg::Bad { run, violation, decisions, log } => {
                            let is_known = known.contains(&violation.kind);
                            agg.lock().unwrap().bad.push((run, violation, decisions, log));
                            if stop_on_bad && !is_known {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        Msg::Hang(i) => hang = Some(i),
                        Msg::End => ended = true,
                    }
                }
                let st = child.wait();
                if !ended {
                    let what = if hang.is_some() { "hang".to_string() } else { format!("died: {:?}", st) };
                    if let Some(i) = hang.or(cur) {
                        agg.lock().unwrap().died.push((i, what));
                        // the rest of this batch is still worth running
                        if i + 1 < b {
                            queue.lock().unwrap().push_back((i + 1, b));
                        }
                        if stop_on_bad {
                            stop.store(true, Ordering::SeqCst);
                        }
                    } else {
                        agg.lock().unwrap().died.push((a, what));
                        break;
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap()
}

/// Runs one plan in a fresh process. Ok(Some(violation)) / Ok(None); a dead process is a violation
/// of kind "process-died" or "hang".
fn run_isolated<P: Serialize>(prop: &str, plan: &P, decisions: &[u32], timeout: Duration) -> (Option<Violation>, Vec<u32>, Vec<String>) {
    let dir = std::env::temp_dir().join(format!("sim-iso-{}-{:x}", std::process::id(), now_ms() ^ (hash_str(&serde_json::to_string(plan).unwrap()) << 8)));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("case.json");
    std::fs::write(&f, serde_json::to_string(&serde_json::json!({"plan": plan, "decisions": decisions})).unwrap()).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["iso", prop, f.to_str().unwrap()])
        .stdout(Stdio::piped())
        .stderr(if std::env::var("SIM_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .stdin(Stdio::null())
        .spawn()
        .unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    let done = Arc::new(AtomicBool::new(false));
    let killed = Arc::new(AtomicBool::new(false));
    let pid = child.id();
    {
        let (done, killed) = (done.clone(), killed.clone());
        std::thread::spawn(move || {
            let t = Instant::now();
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                if t.elapsed() > timeout {
                    killed.store(true, Ordering::SeqCst);
                    unsafe { kill(pid as i32, 9) };
                    break;
                }
            }
        });
    }
    let mut res: Option<RunResult> = None;
    for line in out.split(b'\n') {
        let Ok(line) = line else { break };
        let line = String::from_utf8_lossy(&line).into_owned();
        if let Some(js) = line.strip_prefix("@@") {
            res = serde_json::from_str(js).ok();
        }
    }
    let st = child.wait();
    done.store(true, Ordering::SeqCst);
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&dir);
    match res {
        Some(r) => (r.violation, r.decisions, r.log),
        None if killed.load(Ordering::SeqCst) => (Some(Violation { kind: "hang".into(), detail: "the run did not finish (no progress)".into() }), decisions.to_vec(), vec![]),
        None => (Some(Violation { kind: "process-died".into(), detail: format!("the process running the system died: {st:?}") }), decisions.to_vec(), vec![]),
    }
}
extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn minimise<S: Sim>(prop: &str, plan: S::Plan, decisions: Vec<u32>, v: &Violation, budget: Duration) -> (S::Plan, Vec<u32>, Violation, Vec<String>, bool) {
    let t0 = Instant::now();
    let to = Duration::from_secs(if v.kind == "hang" { hang_ms() / 1000 + 10 } else { 60 });
    let (v0, d0, l0) = run_isolated(prop, &plan, &decisions, to);
    let Some(v0) = v0.filter(|x| x.kind == v.kind) else { return (plan, decisions, v.clone(), vec![], false) };
    let (mut plan, mut dec, mut viol, mut log) = (plan, d0, v0, l0);
    let mut progress = true;
    while progress && t0.elapsed() < budget && v.kind != "hang" {
        progress = false;
        // simpler plans
        'outer: loop {
            if t0.elapsed() > budget {
                break;
            }
            for cand in S::shrink(&plan) {
                if t0.elapsed() > budget {
                    break 'outer;
                }
                let (r, d, l) = run_isolated(prop, &cand, &dec, to);
                if let Some(r) = r.filter(|x| x.kind == v.kind) {
                    plan = cand;
                    dec = d;
                    viol = r;
                    log = l;
                    progress = true;
                    continue 'outer;
                }
            }
            break;
        }
        // simpler decisions: truncate, then zero chunks
        let mut chunk = (dec.len() / 2).max(1);
        while chunk >= 1 && t0.elapsed() < budget {
            let mut at = 0;
            while at < dec.len() && t0.elapsed() < budget {
                let end = (at + chunk).min(dec.len());
                if dec[at..end].iter().any(|x| *x != 0) {
                    let mut c = dec.clone();
                    c[at..end].iter_mut().for_each(|x| *x = 0);
                    let (r, d, l) = run_isolated(prop, &plan, &c, to);
                    if let Some(r) = r.filter(|x| x.kind == v.kind) {
                        dec = d;
                        viol = r;
                        log = l;
                        progress = true;
                    }
                }
                at = end;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 4;
            if chunk == 0 {
                chunk = 1;
            }
            if dec.len() > 400 && chunk < dec.len() / 100 {
                break;
            }
        }
    }
    while dec.last() == Some(&0) {
        dec.pop();
    }
    (plan, dec, viol, log, true)
}

fn write_replay<S: Sim>(prop: &str, seed: u64, run: u64, v: &Violation, plan: &S::Plan, dec: &[u32], log: &[String], minimised: bool, thorough: bool) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join(format!("{prop}-{seed}-{run}.json"));
    let r = Replay { simulator: S::NAME.into(), property: prop.into(), seed, run, kind: v.kind.clone(), detail: v.detail.clone(), minimised, thorough, plan: plan.clone(), decisions: dec.to_vec(), log: log.to_vec() };
    std::fs::write(&f, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    f
}

fn check<S: Sim>(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let meta = S::meta(prop);
    let env_u64 = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = env_u64("SIM_RUNS").unwrap_or(if thorough { meta.thorough_runs } else { meta.quick_runs });
    let secs = env_u64("SIM_SECS").unwrap_or(if thorough { meta.thorough_secs } else { meta.quick_secs });
    let workers = env_u64("SIM_WORKERS").unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize;
    let mut batch = (runs / (workers as u64 * 4)).clamp(1, if meta.batch == 0 { 200 } else { meta.batch });
    if batch == 0 {
        batch = 1;
    }
    println!("{} {prop}: seed={seed} runs<={runs} secs<={secs} workers={workers}", S::NAME);
    let known = known_findings(prop);
    let mut agg = Agg::default();
    let mut code = 0;
    let mut violations = 0u64;
    let mut unconfirmed = 0u64;
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let mut from = 0;
    // One pass, unless something is seen that does not happen again when it is run by itself: that is
    // counted and the search goes on.
    loop {
        let left = secs.saturating_sub(t0.elapsed().as_secs());
        if from >= runs || (left == 0 && from > 0) || unconfirmed > 20 {
            break;
        }
        let mut a = run_batches::<S>(prop, seed, from, runs - from, left.max(1), thorough, workers, batch, true);
        a.bad.sort_by_key(|b| b.0);
        a.died.sort();
        let started = a.hashes.keys().copied().chain(a.died.iter().map(|d| d.0)).max().unwrap_or(runs);
        from = started + 1;
        let mut cases: Vec<(u64, Option<Violation>, Vec<u32>, Vec<String>)> = a.bad.drain(..).map(|(i, v, d, l)| (i, Some(v), d, l)).collect();
        cases.extend(a.died.drain(..).map(|(i, what)| {
            eprintln!("run {i}: worker {what}");
            (i, None, vec![], vec![])
        }));
        agg.merge(a);
        let mut found = false;
        for (run, v, dec, log) in cases {
            if let Some(v) = &v {
                if known.iter().any(|k| k.0 == v.kind) {
                    known_seen.insert(v.kind.clone());
                    continue;
                }
            }
            if found {
                violations += 1;
                continue;
            }
            let (plan, _) = plan_and_decider::<S>(prop, seed, run, thorough);
            if let Some(v) = &v {
                println!("violation in run {run}: {}: {}", v.kind, v.detail);
            }
            // 1. from its recorded decisions, minimised; 2. from its seed
            let mut res = None;
            if let (Some(v), false) = (&v, dec.is_empty()) {
                let (p2, d2, v2, l2, ok) = minimise::<S>(prop, plan.clone(), dec.clone(), v, Duration::from_secs(env_u64("SIM_MIN_SECS").unwrap_or(60)));
                if ok {
                    res = Some((p2, d2, v2, l2, true));
                }
            }
            if res.is_none() {
                for _ in 0..2 {
                    if let Some(v2) = confirm_seeded(prop, seed, run, thorough) {
                        res = Some((plan.clone(), vec![], v2, log.clone(), false));
                        break;
                    }
                }
            }
            let Some((plan, dec2, v2, log, ok)) = res else {
                unconfirmed += 1;
                println!("run {run}: not reproduced when run again by itself; not reported");
                continue;
            };
            if known.iter().any(|k| k.0 == v2.kind) {
                known_seen.insert(v2.kind.clone());
                continue;
            }
            violations += 1;
            found = true;
            let f = write_replay::<S>(prop, seed, run, &v2, &plan, &dec2, &log, ok, thorough);
            println!("minimised: {}: {}", v2.kind, v2.detail);
            for l in log.iter().rev().take(60).rev() {
                println!("  | {l}");
            }
            println!("VIOLATION property={prop} replay={}", f.display());
            code = 1;
        }
        if found {
            break;
        }
    }
    for (k, what) in &known {
        println!("KNOWN-FINDING: property={prop} {what}{}", if known_seen.contains(k) { "" } else { " (not hit in this run)" });
    }
    let mut missing = vec![];
    for p in &meta.probes {
        if agg.stats.get(*p).copied().unwrap_or(0) == 0 {
            missing.push(p.to_string());
        }
    }
    if !missing.is_empty() && violations == 0 {
        println!("probes never hit: {missing:?}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<_, _> = agg.stats.iter().filter(|(k, _)| k.starts_with("fault:")).collect();
    let others: BTreeMap<_, _> = agg.stats.iter().filter(|(k, _)| !k.starts_with("fault:")).collect();
    let ev = serde_json::json!({
        "property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": meta.level,
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": meta.rule,
            "samples": agg.samples,
            "runs_per_hour": (agg.runs as f64 / wall * 3600.0).round(),
            "seeds_per_hour": (agg.runs as f64 / wall * 3600.0).round(),
            "simulated_seconds": agg.sim_us as f64 / 1e6,
            "scheduler_steps": agg.steps,
            "faults_fired": faults,
            "counters": others,
            "distinct_states": agg.states.len(),
            "state_measure": meta.state_measure,
            "real_components": meta.real,
            "stub_components": meta.stub,
            "probes_missed": missing,
            "seen_but_not_reproduced": unconfirmed,
        },
        "assumptions": meta.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let evd = verif_dir().join("evidence");
    std::fs::create_dir_all(&evd).unwrap();
    std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop}: {} runs, {} distinct non-trivial, {} distinct states, {} steps, {:.0} simulated s, {violations} violations, {wall:.1} s", agg.runs, agg.nontrivial.len(), agg.states.len(), agg.steps, agg.sim_us as f64 / 1e6);
    if agg.runs == 0 && code == 0 {
        println!("HARNESS-ERROR: no run completed");
        code = 2;
    }
    code
}

fn confirm_seeded(prop: &str, seed: u64, i: u64, thorough: bool) -> Option<Violation> {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop, &seed.to_string(), &i.to_string(), &(i + 1).to_string(), if thorough { "thorough" } else { "quick" }])
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    let (mut ended, mut hang, mut bad) = (false, false, None);
    for line in out.split(b'\n') {
        let Ok(line) = line else { break };
        let line = String::from_utf8_lossy(&line).into_owned();
        if let Some(js) = line.strip_prefix("@@") {
            match serde_json::from_str::<Msg>(js) {
                Ok(Msg::End) => ended = true,
                Ok(Msg::Hang(_)) => hang = true,
                Ok(Msg::Bad { violation, .. }) => bad = Some(violation),
                _ => {}
            }
        }
    }
    let st = child.wait();
    if let Some(b) = bad {
        return Some(b);
    }
    if ended {
        return None;
    }
    Some(if hang { Violation { kind: "hang".into(), detail: "the run makes no progress".into() } } else { Violation { kind: "process-died".into(), detail: format!("{st:?}") } })
}

pub fn main_for<S: Sim>() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} check P | replay FILE | determinism P [RUNS] | show P RUN", S::NAME);
        std::process::exit(2)
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check::<S>(&args[2])),
        Some("worker") => worker::<S>(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), 1, args[6] == "thorough"),
        Some("iso") => {
            watchdog();
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
            let plan: S::Plan = serde_json::from_value(v["plan"].clone()).unwrap();
            let dec: Vec<u32> = serde_json::from_value(v["decisions"].clone()).unwrap();
            let r = guarded_run::<S>(&args[2], &plan, Decider::traced(dec), 0);
            println!("\n@@{}", serde_json::to_string(&r).unwrap());
            let _ = std::io::stdout().flush();
            unsafe { _exit(0) };
        }
        Some("replay") => {
            let r: Replay<S::Plan> = serde_json::from_str(&std::fs::read_to_string(Path::new(&args[2])).unwrap()).unwrap();
            let v = if r.decisions.is_empty() && !r.minimised {
                confirm_seeded(&r.property, r.seed, r.run, r.thorough)
            } else {
                let (v, _, log) = run_isolated(&r.property, &r.plan, &r.decisions, Duration::from_secs(180));
                for l in log {
                    println!("  | {l}");
                }
                v
            };
            match v {
                Some(v) => {
                    println!("{}: {}", v.kind, v.detail);
                    println!("VIOLATION property={} replay={}", r.property, args[2]);
                    std::process::exit(1)
                }
                None => {
                    println!("replay of {}: no violation", args[2]);
                    std::process::exit(0)
                }
            }
        }
        Some("determinism") => {
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(200);
            let a = run_batches::<S>(&args[2], seed, 0, n, 3600, false, 8, 7, false);
            let b = run_batches::<S>(&args[2], seed, 0, n, 3600, false, 3, 50, false);
            let mut bad = 0;
            for d in a.died.iter().chain(b.died.iter()) {
                println!("died: {d:?}");
            }
            for (k, h) in &a.hashes {
                if b.hashes.get(k) != Some(h) {
                    println!("run {k} differs");
                    bad += 1;
                }
            }
            println!("{}: {} runs compared, {bad} differ, {} died", args[2], a.hashes.len(), a.died.len() + b.died.len());
            std::process::exit((bad > 0) as i32)
        }
        // every kind of violation in so many runs, the first of each minimised
        Some("survey") => {
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(200);
            let mut a = run_batches::<S>(&args[2], seed, 0, n, 3600, false, 8, 7, false);
            a.bad.sort_by_key(|b| b.0);
            println!("{} runs; died: {:?}\n{:?}", a.runs, a.died, a.stats);
            let mut kinds: BTreeMap<String, Vec<u64>> = BTreeMap::new();
            let mut firsts = vec![];
            for (i, v, d, _) in &a.bad {
                let e = kinds.entry(v.kind.clone()).or_default();
                if e.is_empty() {
                    firsts.push((*i, v.clone(), d.clone()));
                }
                e.push(*i);
            }
            for (k, is) in &kinds {
                println!("{:>5} {k}  runs {:?}", is.len(), &is[..is.len().min(6)]);
            }
            let budget = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(0);
            for (i, v, d) in firsts.into_iter().filter(|_| budget > 0) {
                let (plan, _) = plan_and_decider::<S>(&args[2], seed, i, false);
                let (p2, _, v2, log, ok) = minimise::<S>(&args[2], plan, d, &v, Duration::from_secs(budget));
                println!("\n==== run {i} {} (minimised {ok})\n{}\n{}", v2.kind, v2.detail, serde_json::to_string(&p2).unwrap());
                for l in log.iter().rev().take(45).rev() {
                    println!("  | {}", l.chars().take(300).collect::<String>());
                }
            }
        }
        Some("show") => {
            watchdog();
            let i: u64 = args[3].parse().unwrap();
            let (plan, d) = plan_and_decider::<S>(&args[2], seed, i, args.get(4).map(|s| s == "thorough").unwrap_or(false));
            println!("{}", serde_json::to_string(&plan).unwrap());
            let r = guarded_run::<S>(&args[2], &plan, d, i);
            for l in &r.log {
                println!("  | {l}");
            }
            println!("{:?}\n{:?} steps={} sim={}us decisions={} hash={:x}", r.violation, r.stats, r.steps, r.sim_us, r.decisions.len(), r.log_hash());
            let _ = std::io::stdout().flush();
            unsafe { _exit(0) };
        }
        _ => usage(),
    }
}
