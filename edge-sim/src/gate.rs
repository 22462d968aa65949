//! Cooperative scheduling of real threads: one simulated task runs at a time, and control changes
//! hands only at gates, where the seeded scheduler picks who goes on.

use simcore::Decider;
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Parked,
    Running,
    /// Waiting for something other than a gate (a lock another task holds): left alone until it parks.
    Stuck,
    Done,
}

struct Inner {
    active: bool,
    status: Vec<St>,
    label: Vec<String>,
    turn: Option<usize>,
}

struct G {
    m: Mutex<Inner>,
    cv: Condvar,
}

fn g() -> &'static G {
    static G1: OnceLock<G> = OnceLock::new();
    G1.get_or_init(|| G { m: Mutex::new(Inner { active: false, status: vec![], label: vec![], turn: None }), cv: Condvar::new() })
}

/// What the running tasks share: decisions, log and whatever the simulation keeps.
pub struct Shared {
    pub d: Decider,
    pub log: Vec<String>,
    pub stats: std::collections::BTreeMap<String, u64>,
}

pub fn shared() -> MutexGuard<'static, Shared> {
    static S: OnceLock<Mutex<Shared>> = OnceLock::new();
    S.get_or_init(|| Mutex::new(Shared { d: Decider::seeded(0), log: vec![], stats: Default::default() })).lock().unwrap_or_else(|e| e.into_inner())
}
impl Shared {
    pub fn count(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_default() += 1;
    }
    pub fn note(&mut self, s: String) {
        if self.log.len() < 4000 {
            self.log.push(s);
        }
    }
}
pub fn reset(d: Decider) {
    *shared() = Shared { d, log: vec![], stats: Default::default() };
}

thread_local! {
    static TASK: Cell<Option<usize>> = const { Cell::new(None) };
}
pub fn task() -> Option<usize> {
    TASK.try_with(|t| t.get()).ok().flatten()
}
pub fn set_task(t: Option<usize>) {
    TASK.with(|c| c.set(t));
}

fn lock() -> MutexGuard<'static, Inner> {
    g().m.lock().unwrap_or_else(|e| e.into_inner())
}

/// A point where another task may run.
pub fn gate(label: &str) {
    let Some(id) = task() else { return };
    let mut i = lock();
    if !i.active || id >= i.status.len() {
        return;
    }
    i.status[id] = St::Parked;
    i.label[id] = label.to_string();
    if i.turn == Some(id) {
        i.turn = None;
    }
    g().cv.notify_all();
    while i.turn != Some(id) {
        i = g().cv.wait(i).unwrap_or_else(|e| e.into_inner());
    }
    i.status[id] = St::Running;
}

pub struct Outcome {
    pub steps: u64,
    pub states: Vec<u64>,
    pub stuck: bool,
}

/// Runs the tasks under the scheduler. `on_step` sees every instant at which all tasks are parked,
/// with the labels they are parked at.
pub fn run(tasks: Vec<Box<dyn FnOnce() + Send>>, sticky: u32, max_steps: u64, mut on_step: impl FnMut(&[St], &[String]) -> Option<u64>) -> Outcome {
    let n = tasks.len();
    {
        let mut i = lock();
        *i = Inner { active: true, status: vec![St::Running; n], label: vec![String::new(); n], turn: None };
    }
    let done = Arc::new(Mutex::new(0usize));
    let hs: Vec<_> = tasks
        .into_iter()
        .enumerate()
        .map(|(id, f)| {
            let done = done.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    set_task(Some(id));
                    gate("start");
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    *done.lock().unwrap() += 1;
                    let mut i = lock();
                    i.status[id] = St::Done;
                    if i.turn == Some(id) {
                        i.turn = None;
                    }
                    g().cv.notify_all();
                    drop(i);
                    set_task(None);
                })
                .unwrap()
        })
        .collect();
    let mut out = Outcome { steps: 0, states: vec![], stuck: false };
    let mut last: Option<usize> = None;
    let mut trace = simcore::Fnv::new();
    // wait for all to reach the first gate
    {
        let mut i = lock();
        while i.status.iter().any(|s| *s == St::Running) {
            i = g().cv.wait(i).unwrap_or_else(|e| e.into_inner());
        }
    }
    loop {
        let (status, labels) = {
            let i = lock();
            (i.status.clone(), i.label.clone())
        };
        if let Some(h) = on_step(&status, &labels) {
            trace.write(&h.to_le_bytes());
            out.states.push(h);
        }
        let parked: Vec<usize> = (0..n).filter(|x| status[*x] == St::Parked).collect();
        if parked.is_empty() {
            if status.iter().all(|s| *s == St::Done) {
                break;
            }
            // only stuck ones are left: wait for one of them
            let mut i = lock();
            let mut waited = 0;
            while !i.status.iter().any(|s| *s == St::Parked) && i.status.iter().any(|s| *s != St::Done) {
                let (j, t) = g().cv.wait_timeout(i, Duration::from_millis(100)).unwrap_or_else(|e| e.into_inner());
                i = j;
                waited += t.timed_out() as u32;
                if waited > 200 {
                    out.stuck = true;
                    break;
                }
            }
            if out.stuck {
                break;
            }
            continue;
        }
        out.steps += 1;
        if out.steps > max_steps {
            out.stuck = true;
            break;
        }
        let next = if parked.len() == 1 {
            parked[0]
        } else {
            let mut s = shared();
            let keep = last.filter(|l| parked.contains(l));
            match keep {
                // 0 = go on with the same task
                Some(l) if !s.d.chance(1000 - sticky.min(1000)) => l,
                _ => {
                    let k = s.d.choose(parked.len() as u32) as usize;
                    parked[k]
                }
            }
        };
        if last != Some(next) {
            trace.write(&[next as u8]);
            out.states.push(trace.0);
        }
        last = Some(next);
        let mut i = lock();
        i.turn = Some(next);
        i.status[next] = St::Running;
        g().cv.notify_all();
        let mut waited = 0;
        while i.status[next] == St::Running {
            let (j, t) = g().cv.wait_timeout(i, Duration::from_millis(250)).unwrap_or_else(|e| e.into_inner());
            i = j;
            if t.timed_out() {
                waited += 1;
                // longer than any step takes: it waits for a task that is parked
                let others = i.status.iter().enumerate().any(|(k, s)| k != next && *s == St::Parked);
                if others && waited > 16 {
                    i.status[next] = St::Stuck;
                    i.turn = None;
                }
            }
        }
    }
    lock().active = false;
    if !out.stuck {
        for h in hs {
            let _ = h.join();
        }
    }
    out
}
