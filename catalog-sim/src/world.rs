//! The simulated machine: disk with page cache, file locks, shared memory, clock, and the scheduler
//! that lets exactly one simulated process run between two of its system calls.

use simcore::{Decider, Rng};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};

pub const OBS: usize = 1_000_000; // pseudo process of the raw observer: never parked, never failed

#[derive(Clone, Debug)]
pub enum Pend {
    Write(u64, Vec<u8>),
    Truncate(u64),
}

#[derive(Default)]
pub struct Shm {
    pub regions: Vec<*mut u8>,
    pub region_size: usize,
    /// slot -> (handle -> exclusive?)
    pub locks: [BTreeMap<u64, bool>; 8],
}

#[derive(Default)]
pub struct Inode {
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub pending: Vec<Pend>,
    /// handle -> SQLite lock level
    pub locks: BTreeMap<u64, i32>,
    pub shm: Shm,
    pub created_durably: bool,
}

#[derive(Clone, Debug)]
pub enum DirOp {
    Create(String, u64),
    Unlink(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Running,
    /// waiting at a system call or an operation boundary
    Parked(&'static str),
    Sleeping(u64),
    Finished,
    Dead,
}

pub struct Proc {
    pub status: Status,
    pub read_only: bool,
    pub client: usize,
    /// injected faults and contention seen since the current operation began
    pub faults: u32,
    pub busy: u32,
    pub wrote_db: bool,
    /// the process' tokio thread has been woken and has not yet gone back to waiting
    pub tok_active: bool,
    pub faults_ever: u64,
    /// the statement started last, the faults until then, was it outside a transaction
    pub last_stmt: (usize, u64, bool),
    /// the driver has done something to the connection that seafowl did not ask for
    pub tainted: Option<&'static str>,
    pub cv: Arc<Condvar>,
}

#[derive(Clone, Default, Debug)]
pub struct Faults {
    pub read: u32,
    pub write: u32,
    pub full: u32,
    pub sync: u32,
    pub lock: u32,
    pub open: u32,
    pub delete: u32,
    pub truncate: u32,
    pub shm: u32,
    pub budget: u32,
}

pub struct Handle {
    pub proc: usize,
    pub ino: u64,
    pub path: String,
    pub delete_on_close: bool,
    pub has_shm: bool,
    pub is_main: bool,
}

pub struct World {
    pub epoch: u64,
    pub free_run: bool,
    pub d: Decider,
    pub rng: Rng,
    pub now_us: u64,
    pub wall_off_us: i64,
    pub inodes: HashMap<u64, Inode>,
    pub names: BTreeMap<String, u64>,
    pub durable_names: BTreeMap<String, u64>,
    pub dir_pending: Vec<DirOp>,
    pub handles: HashMap<u64, Handle>,
    pub next_handle: u64,
    pub next_ino: u64,
    pub procs: Vec<Proc>,
    pub running: Option<usize>,
    pub sched_cv: Arc<Condvar>,
    pub faults: Faults,
    pub disk_full: bool,
    pub park_reads: bool,
    /// let the driver's known misbehaviour run its course
    pub ghosts: bool,
    pub log: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub steps: u64,
    /// interleaving measure: hash of the sequence (proc, call) since the last operation boundary
    pub path_hash: u64,
    pub path_hashes: Vec<u64>,
}
unsafe impl Send for World {}

static WORLD: OnceLock<Mutex<World>> = OnceLock::new();

pub fn world() -> MutexGuard<'static, World> {
    WORLD
        .get_or_init(|| Mutex::new(World::new(Decider::seeded(0), 0)))
        .lock()
        .unwrap_or_else(|e| e.into_inner())
}

pub fn wait<'a>(cv: &Condvar, g: MutexGuard<'a, World>) -> MutexGuard<'a, World> {
    cv.wait(g).unwrap_or_else(|e| e.into_inner())
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Dir {
    Go,
    Fail,
    /// the handle belongs to an earlier run
    Stale,
}

impl World {
    pub fn new(d: Decider, seed: u64) -> World {
        World {
            epoch: 0,
            free_run: true,
            d,
            rng: Rng::new(seed),
            now_us: 0,
            wall_off_us: 1_700_000_000_000_000,
            inodes: HashMap::new(),
            names: BTreeMap::new(),
            durable_names: BTreeMap::new(),
            dir_pending: vec![],
            handles: HashMap::new(),
            next_handle: 1,
            next_ino: 1,
            procs: vec![],
            running: None,
            sched_cv: Arc::new(Condvar::new()),
            faults: Faults::default(),
            disk_full: false,
            park_reads: false,
            ghosts: false,
            log: vec![],
            stats: BTreeMap::new(),
            steps: 0,
            path_hash: 0,
            path_hashes: vec![],
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_default() += 1;
    }
    pub fn logf(&mut self, s: String) {
        if self.log.len() < 6000 {
            self.log.push(s);
        }
    }
    pub fn wall_us(&self) -> i64 {
        self.now_us as i64 + self.wall_off_us
    }
    pub fn new_proc(&mut self, client: usize, read_only: bool) -> usize {
        self.procs.push(Proc { status: Status::Parked("start"), read_only, client, faults: 0, busy: 0, wrote_db: false, tok_active: false, faults_ever: 1, last_stmt: (0, 0, true), tainted: None, cv: Arc::new(Condvar::new()) });
        self.procs.len() - 1
    }

    fn rate(&self, what: &str) -> u32 {
        match what {
            "read" => self.faults.read,
            "write" => self.faults.write,
            "sync" => self.faults.sync,
            "lock" | "shmlock" => self.faults.lock,
            "open" => self.faults.open,
            "delete" => self.faults.delete,
            "truncate" => self.faults.truncate,
            "shmmap" => self.faults.shm,
            _ => 0,
        }
    }

    /// Makes the content of an inode durable, as fsync does.
    pub fn make_durable(&mut self, ino: u64) {
        if let Some(i) = self.inodes.get_mut(&ino) {
            i.durable = i.data.clone();
            i.pending.clear();
            i.created_durably = true;
        }
        // its directory entry becomes durable with it, and so does what happened to that name before
        if let Some(at) = self.dir_pending.iter().rposition(|o| matches!(o, DirOp::Create(_, n) if *n == ino)) {
            let DirOp::Create(path, _) = self.dir_pending[at].clone() else { unreachable!() };
            let mut rest = vec![];
            for (i, o) in std::mem::take(&mut self.dir_pending).into_iter().enumerate() {
                match &o {
                    DirOp::Create(p, _) | DirOp::Unlink(p) if *p == path && i <= at => {}
                    _ => rest.push(o),
                }
            }
            self.dir_pending = rest;
            self.durable_names.insert(path, ino);
        }
    }
    pub fn sync_dir(&mut self) {
        for o in std::mem::take(&mut self.dir_pending) {
            match o {
                DirOp::Create(p, n) => {
                    self.durable_names.insert(p, n);
                }
                DirOp::Unlink(p) => {
                    self.durable_names.remove(&p);
                }
            }
        }
    }

    fn drop_handles(&mut self, proc: usize) {
        let hs: Vec<u64> = self.handles.iter().filter(|(_, h)| h.proc == proc).map(|(k, _)| *k).collect();
        for h in hs {
            let ino = self.handles[&h].ino;
            if let Some(i) = self.inodes.get_mut(&ino) {
                i.locks.remove(&h);
                for l in i.shm.locks.iter_mut() {
                    l.remove(&h);
                }
            }
            self.handles.remove(&h);
        }
    }

    /// kill -9: everything written stays in the page cache, locks go away. The process' threads stay
    /// parked for ever.
    pub fn kill(&mut self, proc: usize) {
        self.procs[proc].status = Status::Dead;
        self.drop_handles(proc);
        self.count("fault:kill");
        let s = format!("{:>6} p{proc} KILLED", self.steps);
        self.logf(s);
    }

    /// Power failure: un-synced writes survive as the decider says, all processes die.
    pub fn power_failure(&mut self) {
        let s = format!("{:>6} POWER FAILURE", self.steps);
        self.logf(s);
        self.count("fault:power_failure");
        for p in 0..self.procs.len() {
            if !matches!(self.procs[p].status, Status::Dead | Status::Finished) {
                self.procs[p].status = Status::Dead;
                self.drop_handles(p);
            }
        }
        let mode = self.d.choose(4); // 0 all lost, 1 all kept, 2 some lost, 3 some lost or torn
        for o in std::mem::take(&mut self.dir_pending) {
            let keep = match mode {
                0 => false,
                1 => true,
                _ => self.d.choose(2) == 1,
            };
            if keep {
                match o {
                    DirOp::Create(p, n) => {
                        self.durable_names.insert(p, n);
                    }
                    DirOp::Unlink(p) => {
                        self.durable_names.remove(&p);
                    }
                }
            }
        }
        let mut inos: Vec<u64> = self.inodes.keys().copied().collect();
        inos.sort();
        let (mut kept, mut lost, mut torn) = (0u64, 0u64, 0u64);
        for ino in inos {
            let mut node = self.inodes.remove(&ino).unwrap();
            let mut data = std::mem::take(&mut node.durable);
            for p in std::mem::take(&mut node.pending) {
                let how = match mode {
                    0 => 0,
                    1 => 1,
                    2 => self.d.choose(2),
                    _ => self.d.choose(3),
                };
                match (how, p) {
                    (0, _) => lost += 1,
                    (1, Pend::Truncate(n)) | (_, Pend::Truncate(n)) => {
                        data.resize(n as usize, 0);
                        kept += 1
                    }
                    (1, Pend::Write(off, b)) => {
                        put(&mut data, off, &b);
                        kept += 1
                    }
                    (_, Pend::Write(off, b)) => {
                        torn += 1;
                        let mut at = 0usize;
                        while at < b.len() {
                            // sector by sector
                            let end = ((((off as usize + at) / 512) + 1) * 512 - off as usize).min(b.len());
                            if self.d.choose(2) == 1 {
                                put(&mut data, off + at as u64, &b[at..end]);
                            }
                            at = end;
                        }
                    }
                }
            }
            // a fresh inode: whoever still points at the old shared memory is dead
            let fresh = Inode { data: data.clone(), durable: data, created_durably: node.created_durably, ..Default::default() };
            self.inodes.insert(ino, fresh);
        }
        if std::env::var("SIM_TRACE").is_ok() {
            let x = format!("names {:?} -> {:?} sizes {:?}", self.names, self.durable_names, self.inodes.iter().map(|(k, v)| (*k, v.data.len())).collect::<BTreeMap<_, _>>());
            self.logf(x);
        }
        self.names = self.durable_names.clone();
        *self.stats.entry("fault:unsynced_write_lost".into()).or_default() += lost;
        *self.stats.entry("fault:unsynced_write_kept".into()).or_default() += kept;
        *self.stats.entry("fault:unsynced_write_torn".into()).or_default() += torn;
        self.running = None;
    }
}

pub fn put(data: &mut Vec<u8>, off: u64, b: &[u8]) {
    let end = off as usize + b.len();
    if data.len() < end {
        data.resize(end, 0);
    }
    data[off as usize..end].copy_from_slice(b);
}

thread_local! {
    /// the process the current SQLite thread belongs to
    pub static HERE: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// Called by a simulated process' thread at each system call. Parks it until the scheduler picks it.
pub fn point<'a>(mut g: MutexGuard<'a, World>, epoch: u64, proc: usize, what: &'static str, park: bool) -> (MutexGuard<'a, World>, Dir) {
    HERE.with(|h| h.set(Some(proc)));
    if g.epoch != epoch {
        // a thread of an earlier run
        drop(g);
        loop {
            std::thread::park();
        }
    }
    if proc == OBS || g.free_run {
        return (g, Dir::Go);
    }
    if g.procs[proc].status == Status::Dead {
        drop(g);
        loop {
            std::thread::park();
        }
    }
    if park {
        g = park_here(g, epoch, proc, Status::Parked(what));
        if g.epoch != epoch {
            return (g, Dir::Stale);
        }
        if g.free_run {
            return (g, Dir::Go);
        }
    }
    // fault decision
    let full = g.disk_full && matches!(what, "write");
    if full {
        g.procs[proc].faults += 1;
        g.procs[proc].faults_ever += 1;
        g.count("fault:disk_full");
        return (g, Dir::Fail);
    }
    let rate = g.rate(what);
    if rate > 0 && g.faults.budget > 0 && g.d.chance(rate) {
        if !park {
            // a fault ends the turn, so that its place in the history does not depend on how far the
            // tokio thread has come
            g = park_here(g, epoch, proc, Status::Parked(what));
            if g.epoch != epoch || g.free_run || g.faults.budget == 0 {
                return (g, Dir::Go);
            }
        }
        g.faults.budget -= 1;
        g.procs[proc].faults += 1;
        g.procs[proc].faults_ever += 1;
        g.count(&format!("fault:{what}_error"));
        let s = format!("{:>6} p{proc} FAULT {what}", g.steps);
        g.logf(s);
        return (g, Dir::Fail);
    }
    (g, Dir::Go)
}

pub fn park_here<'a>(mut g: MutexGuard<'a, World>, epoch: u64, proc: usize, st: Status) -> MutexGuard<'a, World> {
    // The SQLite thread stops at a system call; the turn ends when the tokio thread waits as well.
    let sqlite_or_gate = st != Status::Parked("start");
    let sqlite_thread = !matches!(st, Status::Parked("start" | "gate" | "idle"));
    if st != Status::Parked("start") && g.procs[proc].status != Status::Dead {
        g.procs[proc].status = st;
    } // (a new process is created in that state and may already have been picked)
    if sqlite_or_gate && g.running == Some(proc) && !(sqlite_thread && g.procs[proc].tok_active) {
        g.running = None;
        g.sched_cv.notify_all();
    }
    let cv = g.procs[proc].cv.clone();
    loop {
        if g.epoch != epoch {
            drop(g);
            // a dead thread of an earlier run stays parked
            loop {
                std::thread::park();
            }
        }
        if g.procs[proc].status == Status::Dead {
            // Dead: never runs again
            g = wait(&cv, g);
            continue;
        }
        if g.free_run || g.procs[proc].status == Status::Running {
            return g;
        }
        g = wait(&cv, g);
    }
}

/// Wraps the root future of a simulated process so that the scheduler knows, without a race, whether
/// the process' tokio thread still has something to do.
pub struct Tracked<F> {
    pub f: std::pin::Pin<Box<F>>,
    pub proc: usize,
    pub epoch: u64,
    pub cell: Arc<TrackedWaker>,
}
pub struct TrackedWaker {
    pub proc: usize,
    pub epoch: u64,
    pub woken: std::sync::atomic::AtomicBool,
    pub inner: Mutex<Option<std::task::Waker>>,
}
impl std::task::Wake for TrackedWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        {
            let mut g = world();
            self.woken.store(true, std::sync::atomic::Ordering::SeqCst);
            if g.epoch == self.epoch {
                g.procs[self.proc].tok_active = true;
            }
        }
        let w = self.inner.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl<F: std::future::Future> Tracked<F> {
    pub fn new(f: F, proc: usize, epoch: u64) -> Self {
        Tracked { f: Box::pin(f), proc, epoch, cell: Arc::new(TrackedWaker { proc, epoch, woken: Default::default(), inner: Mutex::new(None) }) }
    }
}
impl<F: std::future::Future> std::future::Future for Tracked<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        *self.cell.inner.lock().unwrap() = Some(cx.waker().clone());
        {
            let mut g = world();
            if g.epoch != self.epoch {
                return std::task::Poll::Pending;
            }
            self.cell.woken.store(false, std::sync::atomic::Ordering::SeqCst);
            if g.epoch == self.epoch {
                g.procs[self.proc].tok_active = true;
            }
        }
        let w = std::task::Waker::from(self.cell.clone());
        let r = self.f.as_mut().poll(&mut std::task::Context::from_waker(&w));
        let mut g = world();
        let (proc, epoch) = (self.proc, self.epoch);
        if g.epoch == epoch && !self.cell.woken.load(std::sync::atomic::Ordering::SeqCst) {
            g.procs[proc].tok_active = false;
            let st = g.procs[proc].status.clone();
            if g.running == Some(proc) && st != Status::Running {
                g.running = None;
                g.sched_cv.notify_all();
            }
        }
        r
    }
}
