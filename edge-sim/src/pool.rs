//! M01: the real MemoryPoolMetrics over a real DataFusion pool, with a gate around every call it
//! makes to the pool and to the metrics, so that the scheduler interleaves consumers anywhere.

use crate::gate::{self, gate, shared, St};
use datafusion::execution::memory_pool::{FairSpillPool, GreedyMemoryPool, MemoryConsumer, MemoryPool, MemoryReservation, UnboundedMemoryPool};
use metrics::{Counter, CounterFn, Gauge, GaugeFn, Histogram, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use seafowl::memory_pool::MemoryPoolMetrics;
use serde::{Deserialize, Serialize};
use simcore::{Decider, Rng, RunResult, Violation};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

const NAMES: &[&str] = &["Sort[0]", "Sort[1]", "Sort[17]", "Merge", "Hash[a]b]", "", "[0]", "GroupedHash é[2]", "Merge[", "Sort"];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Grow(usize),
    TryGrow(usize),
    Shrink(usize),
    TryShrink(usize),
    Resize(usize),
    TryResize(usize),
    Free,
    /// Drop the reservation and register a new one under this name.
    Renew(usize, bool),
    /// Split off part of it and give it to another task's mailbox (freed by whoever takes it).
    Split(usize),
    /// Drop one reservation other tasks have put in the mailbox.
    Take,
    Quiet,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub kind: u8,
    pub limit: usize,
    pub sticky: u32,
    /// Permille of try_grow calls the pool refuses whatever the limit says.
    pub refuse: u32,
    pub tasks: Vec<(usize, bool, Vec<Op>)>,
}

pub fn gen(rng: &mut Rng, _i: u64, thorough: bool) -> Plan {
    let limit = *rng.pick(&[0usize, 16, 64, 100, 1000, 1 << 20]);
    let n = rng.range(1, if thorough { 6 } else { 4 }) as usize;
    let amt = |rng: &mut Rng| -> usize {
        match rng.below(8) {
            0 => 0,
            1 => 1,
            2 => limit,
            3 => limit + 1,
            4 => (limit / 2).max(1),
            5 => 1 << 33,
            _ => rng.below(limit as u64 / 2 + 8) as usize,
        }
    };
    let tasks = (0..n)
        .map(|_| {
            let m = rng.range(1, if thorough { 16 } else { 9 });
            let ops = (0..m)
                .map(|_| match rng.weighted(&[4, 6, 3, 1, 2, 2, 3, 2, 1, 1, 1]) {
                    0 => Op::Grow(amt(rng)),
                    1 => Op::TryGrow(amt(rng)),
                    2 => Op::Shrink(amt(rng)),
                    3 => Op::TryShrink(amt(rng)),
                    4 => Op::Resize(amt(rng)),
                    5 => Op::TryResize(amt(rng)),
                    6 => Op::Free,
                    7 => Op::Renew(rng.below(NAMES.len() as u64) as usize, rng.chance(500)),
                    8 => Op::Split(amt(rng)),
                    9 => Op::Take,
                    _ => Op::Quiet,
                })
                .collect();
            (rng.below(NAMES.len() as u64) as usize, rng.chance(500), ops)
        })
        .collect();
    Plan { kind: rng.below(3) as u8, limit, sticky: *rng.pick(&[0, 0, 300, 700]), refuse: *rng.pick(&[0, 0, 100, 400]), tasks }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for i in 0..p.tasks.len() {
        if p.tasks.len() > 1 {
            let mut q = p.clone();
            q.tasks.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.tasks.len() {
        for j in 0..p.tasks[i].2.len() {
            let mut q = p.clone();
            q.tasks[i].2.remove(j);
            v.push(q);
        }
    }
    if p.refuse > 0 {
        v.push(Plan { refuse: 0, ..p.clone() });
    }
    v
}

/// Everything recorded through the metrics facade.
#[derive(Default)]
struct Rec {
    gauges: BTreeMap<String, f64>,
    counters: BTreeMap<(String, Vec<(String, String)>), u64>,
}
fn rec() -> &'static Mutex<Rec> {
    static R: OnceLock<Mutex<Rec>> = OnceLock::new();
    R.get_or_init(Default::default)
}
struct SimRecorder;
struct Handle(String, Vec<(String, String)>);
impl GaugeFn for Handle {
    fn increment(&self, v: f64) {
        gate("gauge");
        *rec().lock().unwrap().gauges.entry(self.0.clone()).or_default() += v;
        gate("gauge done");
    }
    fn decrement(&self, v: f64) {
        gate("gauge");
        *rec().lock().unwrap().gauges.entry(self.0.clone()).or_default() -= v;
        gate("gauge done");
    }
    fn set(&self, v: f64) {
        gate("gauge");
        rec().lock().unwrap().gauges.insert(self.0.clone(), v);
        gate("gauge done");
    }
}
impl CounterFn for Handle {
    fn increment(&self, v: u64) {
        gate("counter");
        *rec().lock().unwrap().counters.entry((self.0.clone(), self.1.clone())).or_default() += v;
    }
    fn absolute(&self, v: u64) {
        gate("counter");
        let mut r = rec().lock().unwrap();
        let e = r.counters.entry((self.0.clone(), self.1.clone())).or_default();
        *e = v.max(*e);
    }
}
fn handle(key: &Key) -> Handle {
    let mut l: Vec<_> = key.labels().map(|l| (l.key().to_string(), l.value().to_string())).collect();
    l.sort();
    Handle(key.name().to_string(), l)
}
impl Recorder for SimRecorder {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, key: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(Arc::new(handle(key)))
    }
    fn register_gauge(&self, key: &Key, _: &Metadata<'_>) -> Gauge {
        Gauge::from_arc(Arc::new(handle(key)))
    }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::noop()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Grow(usize),
    TryGrow(usize, Result<(), String>),
    Shrink(usize),
}

/// The real pool behind gates; counts what reaches it.
#[derive(Debug)]
struct SimPool {
    inner: Arc<dyn MemoryPool>,
    refuse: u32,
    calls: Mutex<BTreeMap<usize, Vec<Call>>>,
    registered: Mutex<BTreeMap<(String, bool), i64>>,
}
impl SimPool {
    fn note(&self, c: Call) {
        if let Some(t) = gate::task() {
            self.calls.lock().unwrap().entry(t).or_default().push(c);
        }
    }
}
impl MemoryPool for SimPool {
    fn register(&self, c: &MemoryConsumer) {
        *self.registered.lock().unwrap().entry((c.name().to_string(), c.can_spill())).or_default() += 1;
        self.inner.register(c)
    }
    fn unregister(&self, c: &MemoryConsumer) {
        *self.registered.lock().unwrap().entry((c.name().to_string(), c.can_spill())).or_default() -= 1;
        self.inner.unregister(c)
    }
    fn grow(&self, r: &MemoryReservation, n: usize) {
        gate("pool grow");
        self.inner.grow(r, n);
        self.note(Call::Grow(n));
        gate("pool grown");
    }
    fn shrink(&self, r: &MemoryReservation, n: usize) {
        gate("pool shrink");
        self.inner.shrink(r, n);
        self.note(Call::Shrink(n));
        gate("pool shrunk");
    }
    fn try_grow(&self, r: &MemoryReservation, n: usize) -> datafusion_common::Result<()> {
        gate("pool try_grow");
        let refused = self.refuse > 0 && {
            let mut s = shared();
            let x = s.d.chance(self.refuse);
            if x {
                s.count("fault:refused allocation");
            }
            x
        };
        let res = if refused { Err(datafusion_common::DataFusionError::ResourcesExhausted("injected refusal".into())) } else { self.inner.try_grow(r, n) };
        if res.is_err() && !refused {
            shared().count("limit refusals");
        }
        self.note(Call::TryGrow(n, res.as_ref().map(|_| ()).map_err(|e| e.to_string())));
        gate("pool try_grow done");
        res
    }
    fn reserved(&self) -> usize {
        gate("pool reserved");
        let v = self.inner.reserved();
        gate("pool reserved done");
        v
    }
}

fn base(name: &str) -> String {
    name.split('[').next().unwrap().to_string()
}

struct Token(Arc<Mutex<BTreeMap<(String, bool), i64>>>, (String, bool));
impl Token {
    fn new(m: &Arc<Mutex<BTreeMap<(String, bool), i64>>>, n: &str, s: bool) -> Arc<Token> {
        *m.lock().unwrap().entry((n.to_string(), s)).or_default() += 1;
        Arc::new(Token(m.clone(), (n.to_string(), s)))
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        *self.0.lock().unwrap().entry(self.1.clone()).or_default() -= 1;
    }
}

#[derive(Default)]
struct Model {
    granted: BTreeMap<String, u64>,
    refused: BTreeMap<String, u64>,
    freed: BTreeMap<String, u64>,
    held: usize,
    /// Live registrations: consumers, not counting how many reservations they were split into.
    consumers: Arc<Mutex<BTreeMap<(String, bool), i64>>>,
    bad: Option<Violation>,
}
impl Model {
    fn fail(&mut self, kind: &str, detail: String) {
        if self.bad.is_none() {
            self.bad = Some(Violation { kind: kind.into(), detail });
        }
    }
}

const RESERVED: &str = "seafowl_datafusion_memory_pool_reserved_bytes_current";
const ALLOCATIONS: &str = "seafowl_datafusion_memory_pool_allocated_bytes_total";
const DEALLOCATIONS: &str = "seafowl_datafusion_memory_pool_freed_bytes_total";

pub fn run(p: &Plan, d: Decider) -> RunResult {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| metrics::set_global_recorder(SimRecorder).ok().unwrap());
    gate::reset(d);
    *rec().lock().unwrap() = Rec::default();
    let real: Arc<dyn MemoryPool> = match p.kind {
        0 => Arc::new(GreedyMemoryPool::new(p.limit)),
        1 => Arc::new(FairSpillPool::new(p.limit)),
        _ => Arc::new(UnboundedMemoryPool::default()),
    };
    let sim = Arc::new(SimPool { inner: real.clone(), refuse: p.refuse, calls: Default::default(), registered: Default::default() });
    let pool: Arc<dyn MemoryPool> = Arc::new(MemoryPoolMetrics::new(sim.clone()));
    let model = Arc::new(Mutex::new(Model::default()));
    let mailbox: Arc<Mutex<Vec<(MemoryReservation, Arc<Token>)>>> = Default::default();
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, (name, spill, ops)) in p.tasks.iter().cloned().enumerate() {
        let (pool, model, sim, mailbox) = (pool.clone(), model.clone(), sim.clone(), mailbox.clone());
        tasks.push(Box::new(move || {
            let live = model.lock().unwrap().consumers.clone();
            let reg = |n: usize, s: bool| {
                let r = MemoryConsumer::new(NAMES[n]).with_can_spill(s).register(&pool);
                (r, Token::new(&live, NAMES[n], s))
            };
            let (mut r, mut token) = reg(name, spill);
            let mut all = ops;
            all.push(Op::Free);
            all.push(Op::Renew(0, false));
            for op in all {
                gate("op");
                sim.calls.lock().unwrap().remove(&t);
                let before = r.size();
                let who = base(r.consumer().name());
                let mut expect: Vec<(char, usize)> = vec![];
                let mut result: Option<Result<(), String>> = None;
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &op {
                    Op::Grow(n) => {
                        expect.push(('g', *n));
                        r.grow(*n);
                    }
                    Op::TryGrow(n) => {
                        expect.push(('t', *n));
                        result = Some(r.try_grow(*n).map_err(|e| e.to_string()));
                    }
                    Op::Shrink(n) => {
                        let n = (*n).min(before);
                        expect.push(('s', n));
                        r.shrink(n);
                    }
                    Op::TryShrink(n) => {
                        if *n <= before {
                            expect.push(('s', *n));
                        }
                        let _ = r.try_shrink(*n);
                    }
                    Op::Resize(n) => {
                        match n.cmp(&before) {
                            std::cmp::Ordering::Greater => expect.push(('g', n - before)),
                            std::cmp::Ordering::Less => expect.push(('s', before - n)),
                            _ => {}
                        }
                        r.resize(*n);
                    }
                    Op::TryResize(n) => {
                        match n.cmp(&before) {
                            std::cmp::Ordering::Greater => {
                                expect.push(('t', n - before));
                                result = Some(r.try_resize(*n).map_err(|e| e.to_string()));
                            }
                            std::cmp::Ordering::Less => {
                                expect.push(('s', before - n));
                                let _ = r.try_resize(*n);
                            }
                            _ => {}
                        }
                    }
                    Op::Free => {
                        if before > 0 {
                            expect.push(('s', before));
                        }
                        r.free();
                    }
                    Op::Renew(n, s) => {
                        if before > 0 {
                            expect.push(('s', before));
                        }
                        (r, token) = reg(*n, *s);
                    }
                    Op::Split(n) => {
                        let part = r.split((*n).min(before));
                        mailbox.lock().unwrap().push((part, token.clone()));
                    }
                    Op::Take => {
                        let x = {
                            let mut m = mailbox.lock().unwrap();
                            if m.is_empty() { None } else { Some(m.remove(0)) }
                        };
                        if let Some((x, _token)) = x {
                            let (n, w) = (x.size(), base(x.consumer().name()));
                            drop(x);
                            if n > 0 {
                                let mut m = model.lock().unwrap();
                                *m.freed.entry(w).or_default() += n as u64;
                                m.held = m.held.wrapping_sub(n.to_owned());
                            }
                        }
                    }
                    Op::Quiet => {}
                }));
                let calls = sim.calls.lock().unwrap().remove(&t).unwrap_or_default();
                let mut m = model.lock().unwrap();
                if res.is_err() {
                    m.fail("panic", format!("task {t}: {op:?} panicked"));
                    break;
                }
                if op != Op::Take {
                    let got: Vec<(char, usize)> = calls.iter().map(|c| match c {
                        Call::Grow(n) => ('g', *n),
                        Call::TryGrow(n, _) => ('t', *n),
                        Call::Shrink(n) => ('s', *n),
                    }).collect();
                    let nz = |v: &[(char, usize)]| v.iter().copied().filter(|x| x.1 > 0).collect::<Vec<_>>();
                    if nz(&got) != nz(&expect) {
                        m.fail("wrong-request", format!("task {t}: {op:?} on a reservation of {before} bytes reached the limit as {got:?}, not {expect:?}"));
                    }
                }
                if let Some(Call::TryGrow(_, inner)) = calls.iter().find(|c| matches!(c, Call::TryGrow(..))) {
                    if let Some(r) = &result {
                        if r != inner {
                            m.fail("wrong-answer", format!("task {t}: {op:?}: the limit answered {inner:?}, the consumer got {r:?}"));
                        }
                    }
                }
                for (k, n) in &expect {
                    let n64 = *n as u64;
                    match k {
                        'g' => {
                            *m.granted.entry(who.clone()).or_default() += n64;
                            m.held += n;
                        }
                        't' => {
                            if let Some(Ok(())) = result {
                                *m.granted.entry(who.clone()).or_default() += n64;
                                m.held += n;
                            } else {
                                *m.refused.entry(who.clone()).or_default() += n64;
                            }
                        }
                        _ => {
                            *m.freed.entry(who.clone()).or_default() += n64;
                            m.held = m.held.wrapping_sub(n.to_owned());
                        }
                    }
                }
                drop(m);
                let mut s = shared();
                s.count("ops");
                s.note(format!("task {t} {op:?}: {:?}", result));
            }
            // the last Renew left an empty reservation
            drop(r);
            drop(token);
        }));
    }
    let mut states = 0u64;
    let check = |when: &str, m: &mut Model| {
        let live = m.consumers.lock().unwrap().iter().filter(|x| *x.1 != 0).map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>();
        let seen = sim.registered.lock().unwrap().iter().filter(|x| *x.1 != 0).map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>();
        if live != seen {
            m.fail("consumers", format!("{when}: the limit knows the consumers {seen:?}, those there are {live:?}"));
        }
        let r = rec().lock().unwrap();
        let gauge = r.gauges.get(RESERVED).copied().unwrap_or(0.0);
        let real_reserved = real.reserved();
        if real_reserved != m.held {
            m.fail("held-differs", format!("{when}: the pool holds {real_reserved} bytes, its consumers {}", m.held));
        }
        if gauge != real_reserved as f64 {
            m.fail("gauge", format!("{when}: the reserved-bytes metric says {gauge}, {real_reserved} bytes are reserved"));
        }
        let get = |name: &str, labels: &[(&str, &str)]| {
            let mut l: Vec<_> = labels.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            l.sort();
            r.counters.get(&(name.to_string(), l)).copied().unwrap_or(0)
        };
        let mut names: Vec<String> = NAMES.iter().map(|n| base(n)).collect();
        names.sort();
        names.dedup();
        let mut bad = vec![];
        for n in &names {
            for (what, have, want) in [
                ("allocated", get(ALLOCATIONS, &[("consumer", n), ("result", "success")]), m.granted.get(n).copied().unwrap_or(0)),
                ("refused", get(ALLOCATIONS, &[("consumer", n), ("result", "error")]), m.refused.get(n).copied().unwrap_or(0)),
                ("freed", get(DEALLOCATIONS, &[("consumer", n)]), m.freed.get(n).copied().unwrap_or(0)),
            ] {
                if have != want {
                    bad.push(format!("{when}: {what} bytes of consumer {n:?} counted as {have}, really {want}"));
                }
            }
        }
        for b in bad {
            m.fail("counter", b);
        }
    };
    let mut quiet = 0u64;
    let out = gate::run(tasks, p.sticky, 20_000, |st, labels| {
        // Quiet: nobody is inside a call.
        if st.iter().zip(labels).all(|(s, l)| *s == St::Done || (*s == St::Parked && (l == "op" || l == "start"))) {
            quiet += 1;
            let mut m = model.lock().unwrap();
            check("quiet moment", &mut m);
        }
        states += 1;
        Some(simcore::hash_str(&format!("{:?}{:?}{}", labels, rec().lock().unwrap().gauges, real.reserved())))
    });
    // what is left in the mailbox
    for (x, _token) in mailbox.lock().unwrap().drain(..) {
        let (n, w) = (x.size(), base(x.consumer().name()));
        drop(x);
        let mut m = model.lock().unwrap();
        if n > 0 {
            *m.freed.entry(w).or_default() += n as u64;
            m.held = m.held.wrapping_sub(n.to_owned());
        }
    }
    let mut m = model.lock().unwrap();
    check("everything released", &mut m);
    if real.reserved() != 0 {
        m.fail("leak", format!("{} bytes stay reserved once every reservation is released", real.reserved()));
    }
    let mut res = RunResult::default();
    let mut s = shared();
    res.violation = m.bad.take();
    if out.stuck && res.violation.is_none() {
        res.violation = Some(Violation { kind: "stuck".into(), detail: "consumers stop making progress".into() });
    }
    res.stats = std::mem::take(&mut s.stats);
    res.count("quiet moments", quiet);
    res.states = out.states;
    res.steps = out.steps;
    res.nontrivial = p.tasks.len() > 1 && quiet > 2;
    res.log = std::mem::take(&mut s.log);
    res.decisions = std::mem::take(&mut s.d.log);
    res
}
