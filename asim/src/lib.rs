//! Simulation of asynchronous code in one thread. Every task of the code under test runs on one
//! current-thread runtime with a paused clock; whatever may take time (an object store request, a
//! file operation, the start of a spawned task) is an *operation* that waits until the driver lets
//! it go. The driver acts only when nothing else can run, so that the order of operations, their
//! faults and the passing of time are all its decisions.

use simcore::{Decider, Fnv, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;
use tokio::sync::oneshot;

pub mod store;
pub mod sys;

/// What becomes of an operation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Go,
    /// It fails without effect.
    Fail,
    /// It fails after taking effect, wholly or in part.
    FailAfter,
}

#[derive(Clone, Debug, Default)]
pub struct Faults {
    /// Per mille of operations that fail, by what their label starts with.
    pub rates: Vec<(&'static str, u32, u32)>,
    /// At most so many of them.
    pub budget: u32,
}

struct Pending {
    id: u64,
    label: String,
    /// Which verdicts other than Go make sense.
    fail: bool,
    fail_after: bool,
    tx: oneshot::Sender<Verdict>,
}

pub struct World {
    pub d: Decider,
    pending: Vec<Pending>,
    next: u64,
    pub faults: Faults,
    pub stats: BTreeMap<String, u64>,
    pub log: Vec<String>,
    pub states: Vec<u64>,
    sched: Fnv,
    pub steps: u64,
    dead: bool,
    pub fired: u64,
    /// No more stalls.
    calm: bool,
    wake: std::rc::Rc<tokio::sync::Notify>,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
static ON: AtomicBool = AtomicBool::new(false);

pub fn active() -> bool {
    ON.load(Ordering::Relaxed) && WORLD.with(|w| w.borrow().is_some())
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD.with(|w| w.borrow_mut().as_mut().map(f))
}
pub fn note(s: impl Into<String>) {
    with(|w| {
        if w.log.len() < 4000 {
            let s = s.into();
            w.log.push(s)
        }
    });
}
pub fn count(k: &str) {
    count_n(k, 1)
}
pub fn count_n(k: &str, n: u64) {
    with(|w| *w.stats.entry(k.to_string()).or_default() += n);
}
/// A decision of the run.
pub fn choose(n: u32) -> u32 {
    with(|w| w.d.choose(n)).unwrap_or(0)
}
pub fn chance(permille: u32) -> bool {
    with(|w| w.d.chance(permille)).unwrap_or(false)
}

/// No more faults and stalls from here on.
pub fn calm() {
    with(|w| {
        w.faults = Faults::default();
        w.calm = true;
        w.wake.notify_one();
    });
}

tokio::task_local! {
    /// Which simulated client this is, for the log and for stickiness.
    pub static CLIENT: String;
}
pub fn client() -> String {
    CLIENT.try_with(|c| c.clone()).unwrap_or_else(|_| "background".into())
}

/// Wait until the driver picks this operation.
pub async fn op(label: impl Into<String>, fail: bool, fail_after: bool) -> Verdict {
    if !active() {
        return Verdict::Go;
    }
    let label = label.into();
    let who = client();
    let rx = with(|w| {
        let (tx, rx) = oneshot::channel();
        let id = w.next;
        w.next += 1;
        w.pending.push(Pending { id, label: format!("{who}: {label}"), fail, fail_after, tx });
        w.wake.notify_one();
        rx
    })
    .unwrap();
    match rx.await {
        Ok(v) => v,
        // the process died
        Err(_) => std::future::pending().await,
    }
}

/// Does an operation that cannot wait fail?
pub fn immediate(what: &str) -> bool {
    if !active() {
        return false;
    }
    with(|w| {
        if w.fired >= w.faults.budget as u64 {
            return false;
        }
        let Some((_, rate, _)) = w.faults.rates.iter().find(|r| what.starts_with(r.0)).cloned() else { return false };
        if !w.d.chance(rate) {
            return false;
        }
        w.fired += 1;
        *w.stats.entry(format!("fault:{what} fails")).or_default() += 1;
        w.log.push(format!("        {what} FAILS"));
        true
    })
    .unwrap()
}

pub struct Config {
    /// Per mille: go on with the client that moved last.
    pub sticky: u32,
    /// Per mille of steps at which time passes instead, and by how much.
    pub stall: u32,
    pub stall_ms: Vec<u64>,
    pub max_steps: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config { sticky: 0, stall: 0, stall_ms: vec![10], max_steps: 20_000 }
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum End {
    /// The main future ended, and so did everything it started.
    Done,
    /// Nothing can run and the main future has not ended.
    Stuck,
    /// More steps than allowed.
    Endless,
    /// The step callback said to stop: the process dies here.
    Stopped,
}

/// Start a run: decisions come from `d`.
pub fn begin(d: Decider) {
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            d,
            pending: vec![],
            next: 0,
            faults: Faults::default(),
            stats: BTreeMap::new(),
            log: vec![],
            states: vec![],
            sched: Fnv::new(),
            steps: 0,
            dead: false,
            fired: 0,
            calm: false,
            wake: Default::default(),
        })
    });
    ON.store(true, Ordering::SeqCst);
}
pub fn end() -> World {
    ON.store(false, Ordering::SeqCst);
    WORLD.with(|w| w.borrow_mut().take()).unwrap()
}

fn who(label: &str) -> &str {
    label.split(':').next().unwrap_or("")
}

/// Run `main` (and everything it spawns) until it ends and nothing is pending, or the callback stops
/// it. The runtime is dropped at the end, as a killed process would be: whatever still runs is gone.
pub fn run<F>(cfg: &Config, main: F, mut each: impl FnMut() -> bool) -> End
where
    F: Future<Output = ()> + 'static,
{
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let end = rt.block_on(async {
        sys::attach_clock(Some(tokio::time::Instant::now()));
        let local = tokio::task::LocalSet::new();
        let done = std::rc::Rc::new(std::cell::Cell::new(false));
        let d2 = done.clone();
        let end = local
            .run_until(async move {
                let handle = tokio::task::spawn_local(async move {
                    main.await;
                    d2.set(true);
                });
                let mut steps = 0;
                let mut idle = 0;
                let mut last = String::new();
                let end = loop {
                    // the paused clock moves only when nothing else can run
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    if handle.is_finished() && !done.get() {
                        break End::Done; // it panicked: the caller notices
                    }
                    if !each() {
                        break End::Stopped;
                    }
                    let npend = with(|w| {
                        w.pending.retain(|p| !p.tx.is_closed());
                        w.pending.len()
                    })
                    .unwrap();
                    if npend == 0 {
                        if done.get() {
                            // tasks it left behind may still have timers
                            idle += 1;
                            if idle > 2 {
                                break End::Done;
                            }
                            continue;
                        }
                        idle += 1;
                        if idle > 60 {
                            break End::Stuck;
                        }
                        // let timers fire
                        let wake = with(|w| w.wake.clone()).unwrap();
                        tokio::select! {
                            _ = wake.notified() => {}
                            _ = tokio::time::sleep(Duration::from_millis(1 << (idle.min(40) / 2))) => {}
                        }
                        continue;
                    }
                    idle = 0;
                    steps += 1;
                    if steps > cfg.max_steps {
                        break End::Endless;
                    }
                    if !with(|w| w.calm).unwrap() && chance(cfg.stall) {
                        let ms = cfg.stall_ms[choose(cfg.stall_ms.len() as u32) as usize];
                        note(format!("        {ms} ms pass"));
                        let until = tokio::time::Instant::now() + Duration::from_millis(ms);
                        let wake = with(|w| w.wake.clone()).unwrap();
                        while !with(|w| w.calm).unwrap() {
                            tokio::select! {
                                _ = wake.notified() => {}
                                _ = tokio::time::sleep_until(until) => break,
                            }
                        }
                        continue;
                    }
                    let (p, v) = with(|w| {
                        w.steps += 1;
                        w.pending.retain(|p| !p.tx.is_closed());
                        w.pending.sort_by_key(|p| p.id);
                        let same: Vec<usize> = (0..w.pending.len()).filter(|i| who(&w.pending[*i].label) == last).collect();
                        let k = if !same.is_empty() && same.len() < w.pending.len() && w.d.chance(cfg.sticky) {
                            same[w.d.choose(same.len() as u32) as usize]
                        } else {
                            w.d.choose(w.pending.len() as u32) as usize
                        };
                        let p = w.pending.remove(k);
                        let what = p.label.splitn(2, ": ").nth(1).unwrap_or("").to_string();
                        let mut v = Verdict::Go;
                        if w.fired < w.faults.budget as u64 && (p.fail || p.fail_after) {
                            if let Some((_, rate, after)) = w.faults.rates.iter().find(|r| what.starts_with(r.0)).cloned() {
                                if w.d.chance(rate) {
                                    v = if p.fail_after && (!p.fail || w.d.chance(after)) { Verdict::FailAfter } else { Verdict::Fail };
                                    if !p.fail && v == Verdict::Fail {
                                        v = Verdict::FailAfter;
                                    }
                                    w.fired += 1;
                                    let kind = what.split(' ').next().unwrap_or("").to_string();
                                    *w.stats.entry(format!("fault:{kind} {}", if v == Verdict::Fail { "fails" } else { "fails after taking effect" })).or_default() += 1;
                                }
                            }
                        }
                        w.sched.write(p.label.as_bytes());
                        w.sched.write(&[v as u8]);
                        let h = w.sched.0;
                        if w.states.len() < 400 {
                            w.states.push(h);
                        }
                        if w.log.len() < 4000 {
                            let t = sys::elapsed_us() / 1000;
                            w.log.push(format!("{t:>6} {}{}", p.label, match v { Verdict::Go => "", Verdict::Fail => "  -> FAILS", Verdict::FailAfter => "  -> FAILS AFTER TAKING EFFECT" }));
                        }
                        (p, v)
                    })
                    .unwrap();
                    last = who(&p.label).to_string();
                    let _ = p.tx.send(v);
                };
                end
            })
            .await;
        sys::attach_clock(None);
        end
    });
    with(|w| {
        w.pending.clear();
        w.dead = true
    });
    // dropping the runtime drops every task
    rt.shutdown_timeout(Duration::from_secs(2));
    with(|w| {
        w.pending.clear();
        w.dead = false
    });
    end
}

/// Start a task of the simulation itself.
pub fn spawn_client<F: Future<Output = ()> + 'static>(name: String, f: F) -> tokio::task::JoinHandle<()> {
    tokio::task::spawn_local(CLIENT.scope(name, f))
}

pub fn seeded_bytes(tag: &str, n: usize) -> Vec<u8> {
    let mut r = Rng::new(simcore::hash_str(tag));
    let mut v = vec![0u8; n];
    r.fill(&mut v);
    v
}

/// Run `f` in a thread of its own, whose hash seeds, random numbers and clocks are those of every
/// other such thread.
pub fn isolated<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> std::thread::Result<R> {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            sys::SIM_THREAD.with(|t| t.set(true));
            sys::reset();
            fastrand::seed(0x5eaf);
            f()
        })
        .unwrap()
        .join()
}
