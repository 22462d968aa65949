//! K01-K03: the real CachingObjectStore over a simulated object store and a scratch directory.

use asim::store::SimStore;
use asim::{End, Faults};
use bytes::Bytes;
use object_store::path::Path;
use object_store::{ObjectStore, PutPayload};
use seafowl::config::schema::ObjectCacheProperties;
use seafowl::object_store::cache::CachingObjectStore;
use serde::{Deserialize, Serialize};
use simcore::{Decider, Meta, Rng, RunResult, Sim, Violation};
use std::cell::{Cell, RefCell};
use std::ops::Range;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Range { obj: usize, start: usize, end: usize, sibling: bool },
    Ranges { obj: usize, ranges: Vec<(usize, usize)> },
    Whole { obj: usize },
    /// Write the object of this number through the cache (nobody else writes it).
    Put { obj: usize },
    Wait(u64),
    /// One of the cache's files disappears.
    Lose(u32),
    /// The read is given up after so many milliseconds.
    Abandon { obj: usize, start: usize, end: usize, ms: u64 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub chunk: u64,
    pub capacity: u64,
    pub ttl: u64,
    pub objects: Vec<usize>,
    /// Of these objects, so many exist at the start.
    pub present: usize,
    pub clients: Vec<Vec<Op>>,
    pub store_faults: u32,
    pub file_faults: u32,
    pub budget: u32,
    pub sticky: u32,
    pub stall: u32,
    pub stall_ms: Vec<u64>,
    /// Every read well after the last one: nothing runs in parallel, no faults, no stalls.
    pub quiet: bool,
    /// Through the configuration rather than directly.
    pub config: bool,
}

fn gen_range(rng: &mut Rng, len: usize, chunk: usize) -> (usize, usize) {
    let edge = |rng: &mut Rng| -> usize {
        let b = match rng.below(6) {
            0 => 0,
            1 => len,
            2 => len + rng.below(2 * chunk as u64 + 1) as usize,
            3 => chunk * rng.below((len / chunk + 2) as u64) as usize,
            _ => rng.below(len as u64 + 1) as usize,
        };
        match rng.below(6) {
            0 => b + 1,
            1 => b.saturating_sub(1),
            _ => b,
        }
    };
    let (a, b) = (edge(rng), edge(rng));
    let (a, b) = (a.min(b), a.max(b));
    if a == b && !rng.chance(150) {
        return (a, a + 1 + rng.below(2 * chunk as u64) as usize);
    }
    (a, b)
}

pub fn gen(rng: &mut Rng, i: u64, thorough: bool) -> Plan {
    let chunk = *rng.pick(&[1u64, 2, 4, 4, 16]);
    let c = chunk as usize;
    let quiet = i % 6 == 5;
    let no = rng.range(1, if thorough { 4 } else { 3 }) as usize;
    let objects: Vec<usize> = (0..no)
        .map(|_| {
            let k = rng.range(1, 6) as usize * c;
            match rng.below(5) {
                0 => k,
                1 => k + 1,
                2 => k - 1,
                3 => rng.below(c as u64 + 1) as usize,
                _ => k + rng.below(c as u64) as usize,
            }
        })
        .collect();
    let capacity = match rng.below(6) {
        0 => 0,
        1 => chunk,
        2 => 2 * chunk + 1,
        3 => chunk * rng.range(2, 5),
        _ => 1000 * chunk,
    };
    let present = if rng.chance(250) { no - 1 } else { no };
    let nc = if quiet { 1 } else { rng.range(1, if thorough { 5 } else { 4 }) as usize };
    // clients mostly use the same few ranges
    let hot: Vec<(usize, usize, usize)> = (0..rng.range(1, 4))
        .map(|_| {
            let obj = rng.below(no as u64) as usize;
            let (a, b) = gen_range(rng, objects[obj], c);
            (obj, a, b)
        })
        .collect();
    let abandon = i % 5 == 2;
    let ttl = *rng.pick(&[1u64, 2, 3, 3, 180, 180]);
    let mut clients: Vec<Vec<Op>> = (0..nc)
        .map(|_| {
            let n = rng.range(1, if thorough { 12 } else { 8 });
            (0..n)
                .map(|_| {
                    let obj = rng.below(no as u64) as usize;
                    let (obj, start, end) = if rng.chance(500) {
                        *rng.pick(&hot)
                    } else {
                        let (a, b) = gen_range(rng, objects[obj], c);
                        (obj, a, b)
                    };
                    match rng.weighted(&[12, 2, 1, if quiet { 8 } else { 4 }, if abandon { 3 } else { 0 }, (i % 7 == 3) as u64]) {
                        0 => Op::Range { obj, start, end, sibling: rng.chance(200) },
                        1 => Op::Ranges { obj, ranges: (0..rng.range(1, 4)).map(|_| gen_range(rng, objects[obj], c)).filter(|r| r.1 > r.0).collect() },
                        2 => Op::Whole { obj },
                        3 => Op::Wait(match rng.below(5) {
                            0 => 1,
                            1 => 10,
                            2 => 310,
                            3 => ttl * 1000 / 2,
                            _ => ttl * 1000 + rng.below(700),
                        }),
                        5 => Op::Lose(rng.below(8) as u32),
                        _ => Op::Abandon { obj, start, end, ms: rng.range(1, 40) },
                    }
                })
                .collect()
        })
        .collect();
    if present < no {
        let who = rng.below(nc as u64) as usize;
        let at = rng.below(clients[who].len() as u64 + 1) as usize;
        clients[who].insert(at, Op::Put { obj: no - 1 });
    }
    let faulty = !quiet && rng.chance(600);
    Plan {
        chunk,
        capacity,
        ttl,
        objects,
        present,
        clients,
        store_faults: if faulty { *rng.pick(&[0, 100, 300]) } else { 0 },
        file_faults: if faulty { *rng.pick(&[0, 100, 300]) } else { 0 },
        budget: *rng.pick(&[1, 2, 5, 100]),
        sticky: *rng.pick(&[0, 0, 400, 800]),
        stall: if quiet { 0 } else { *rng.pick(&[0, 0, 30, 150]) },
        stall_ms: vec![10, 320, ttl * 1000 + 50],
        quiet,
        config: i % 2 == 1,
    }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for i in 0..p.clients.len() {
        if p.clients.len() > 1 {
            let mut q = p.clone();
            q.clients.remove(i);
            v.push(q);
        }
    }
    for f in [|q: &mut Plan| q.stall = 0, |q: &mut Plan| q.store_faults = 0, |q: &mut Plan| q.file_faults = 0, |q: &mut Plan| q.budget = 1, |q: &mut Plan| q.sticky = 0] {
        let mut q = p.clone();
        f(&mut q);
        if serde_json::to_string(&q).unwrap() != serde_json::to_string(p).unwrap() {
            v.push(q);
        }
    }
    for i in 0..p.clients.len() {
        for j in 0..p.clients[i].len() {
            let mut q = p.clone();
            q.clients[i].remove(j);
            v.push(q);
        }
    }
    v
}

pub fn data(obj: usize, len: usize) -> Vec<u8> {
    // every byte tells where it belongs
    let mut v = asim::seeded_bytes(&format!("object {obj}"), len);
    for (i, b) in v.iter_mut().enumerate() {
        *b = (*b & 0xc0) | ((i as u8 + obj as u8 * 17) & 0x3f);
    }
    v
}
fn path(obj: usize) -> Path {
    // easily confused: the same name in other directories, a longer name, one directory deeper
    match obj {
        0 => Path::from("dir/object.parquet"),
        1 => Path::from("dir2/object.parquet"),
        2 => Path::from("dir/object.parquet-1"),
        3 => Path::from("dir/dir/object.parquet"),
        _ => Path::from(format!("dir/object{obj}.parquet")),
    }
}

struct Shared {
    plan: Plan,
    prop: String,
    bad: RefCell<Option<Violation>>,
    sim: SimStore,
    dir: RefCell<PathBuf>,
    /// Whether an object was there when a read began.
    put: RefCell<Vec<bool>>,
    busy: Cell<u32>,
}

impl Shared {
    fn fail(&self, prop: &[&str], kind: &str, detail: String) {
        if !prop.contains(&self.prop.as_str()) {
            return;
        }
        asim::note(format!("        VIOLATION {kind}: {detail}"));
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(Violation { kind: kind.into(), detail });
        }
    }
    fn expect(&self, obj: usize, r: Range<usize>) -> Bytes {
        let d = data(obj, self.plan.objects[obj]);
        let (a, b) = (r.start.min(d.len()), r.end.min(d.len()));
        Bytes::from(d[a..b.max(a)].to_vec())
    }
    /// The files of the cache and their bytes.
    fn files(&self) -> Vec<(String, u64)> {
        self.paths().iter().filter_map(|p| Some((p.file_name()?.to_string_lossy().into_owned(), p.metadata().ok()?.len()))).collect()
    }
    fn paths(&self) -> Vec<PathBuf> {
        let mut v = vec![];
        fn walk(d: &std::path::Path, v: &mut Vec<PathBuf>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                match e.metadata() {
                    Ok(m) if m.is_dir() => walk(&e.path(), v),
                    Ok(_) => v.push(e.path()),
                    Err(_) => {}
                }
            }
        }
        walk(&self.dir.borrow(), &mut v);
        v.sort();
        v
    }
    fn check(&self, what: &str, obj: usize, r: Range<usize>, got: &Bytes) {
        let want = self.expect(obj, r.clone());
        if *got != want {
            let kind = if got.len() < want.len() {
                "missing-bytes"
            } else if got.len() > want.len() {
                "additional-bytes"
            } else {
                "wrong-bytes"
            };
            self.fail(
                &["K01"],
                kind,
                format!("{what} of object{obj} ({} bytes), range {}..{}, chunks of {}: got {:?}, the store has {:?}", self.plan.objects[obj], r.start, r.end, self.plan.chunk, &got[..], &want[..]),
            );
        }
    }
}

/// A panic of the code under test, as a value.
async fn guard<T>(f: impl std::future::Future<Output = T>) -> Result<T, String> {
    use futures::FutureExt;
    std::panic::AssertUnwindSafe(f)
        .catch_unwind()
        .await
        .map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

async fn client(me: String, ops: Vec<Op>, stores: Vec<Arc<dyn ObjectStore>>, sh: Rc<Shared>) {
    for (n, op) in ops.into_iter().enumerate() {
        if sh.bad.borrow().is_some() {
            break;
        }
        asim::note(format!("        {me} {op:?}"));
        let t0 = asim::sys::elapsed_us();
        let before = sh.sim.requests.lock().unwrap().len();
        let refused = get_faults();
        match op {
            Op::Wait(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
            Op::Put { obj } => {
                if stores[0].put(&path(obj), PutPayload::from(data(obj, sh.plan.objects[obj]))).await.is_ok() {
                    sh.put.borrow_mut()[obj] = true;
                }
            }
            Op::Whole { obj } => {
                let there = sh.put.borrow()[obj];
                let r = guard(async { Ok::<_, object_store::Error>(stores[0].get(&path(obj)).await?.bytes().await?) }).await;
                asim::count("whole reads");
                match r {
                    Err(p) => sh.fail(&["K01"], "panic", format!("reading all of object{obj} panicked: {p}")),
                    Ok(Ok(b)) => sh.check("reading all", obj, 0..usize::MAX, &b),
                    Ok(Err(e)) => failed(&sh, there, obj, 0..1, refused, &e),
                }
            }
            Op::Range { obj, start, end, sibling } => {
                let there = sh.put.borrow()[obj];
                let r = guard(stores[sibling as usize].get_range(&path(obj), start..end)).await;
                asim::count("range reads");
                match r {
                    Err(p) => sh.fail(&["K01"], "panic", format!("reading object{obj} ({} bytes) {start}..{end} with chunks of {} panicked: {p}", sh.plan.objects[obj], sh.plan.chunk)),
                    Ok(Ok(b)) => {
                        sh.check("read", obj, start..end, &b);
                        let asked = sh.sim.requests.lock().unwrap()[before..].iter().filter(|q| q.0 == "get").count();
                        if asked == 0 && end > start {
                            asim::count("reads served by the cache");
                        }
                        if sh.plan.quiet && end > start && start < sh.plan.objects[obj] {
                            expiry(&sh, n, obj, start..end.min(sh.plan.objects[obj]), t0, before);
                        }
                    }
                    Ok(Err(e)) => failed(&sh, there, obj, start..end, refused, &e),
                }
            }
            Op::Ranges { obj, ranges } => {
                let there = sh.put.borrow()[obj];
                let rs: Vec<Range<usize>> = ranges.iter().map(|r| r.0..r.1.min(sh.plan.objects[obj])).filter(|r| r.start < r.end).collect();
                if rs.is_empty() {
                    continue;
                }
                asim::count("multi-range reads");
                match guard(stores[0].get_ranges(&path(obj), &rs)).await {
                    Err(p) => sh.fail(&["K01"], "panic", format!("reading object{obj} {rs:?} panicked: {p}")),
                    Ok(Ok(v)) => {
                        if v.len() != rs.len() {
                            sh.fail(&["K01"], "missing-bytes", format!("{} ranges asked for, {} given", rs.len(), v.len()));
                        }
                        for (r, b) in rs.iter().zip(&v) {
                            sh.check("read of several ranges", obj, r.clone(), b);
                        }
                    }
                    Ok(Err(e)) => failed(&sh, there, obj, rs[0].clone(), refused, &e),
                }
            }
            Op::Lose(n) => {
                let files = sh.paths();
                if !files.is_empty() {
                    let f = &files[n as usize % files.len()];
                    if std::fs::remove_file(f).is_ok() {
                        asim::count("fault:cache file lost");
                    }
                }
            }
            Op::Abandon { obj, start, end, ms } => {
                let s = stores[0].clone();
                let p = path(obj);
                let r = guard(tokio::time::timeout(Duration::from_millis(ms), s.get_range(&p, start..end))).await;
                match r {
                    Err(p) => sh.fail(&["K01"], "panic", format!("reading object{obj} {start}..{end} panicked: {p}")),
                    Ok(Ok(Ok(b))) => sh.check("read", obj, start..end, &b),
                    Ok(Ok(Err(_))) => {}
                    Ok(Err(_)) => asim::count("reads given up"),
                }
            }
        }
    }
    sh.busy.set(sh.busy.get() - 1);
}

/// In a quiet run: what was downloaded longer ago than the time to live is downloaded again.
fn expiry(sh: &Shared, _n: usize, obj: usize, r: Range<usize>, t0: u64, before: usize) {
    let c = sh.plan.chunk as usize;
    let log = sh.sim.requests.lock().unwrap();
    for k in r.start / c..=(r.end - 1) / c {
        let covers = |q: &(String, String, Option<Range<usize>>, u64)| q.0 == "get" && q.1 == path(obj).to_string() && q.2.as_ref().is_none_or(|q| q.start <= k * c && k * c < q.end);
        if log[before..].iter().any(covers) {
            continue;
        }
        if let Some(q) = log[..before].iter().rev().find(|q| covers(q)) {
            asim::count("expiry checks");
            // the file replaces the downloaded bytes, a few operations later
            let age = t0.saturating_sub(q.3);
            if age > sh.plan.ttl * 1_000_000 + 600_000 {
                sh.fail(&["K02"], "not-expired", format!("chunk {k} of object{obj} was served from the cache {} ms after it was downloaded, time to live {} s", age / 1000, sh.plan.ttl));
            }
        } else {
            sh.fail(&["K01", "K02"], "never-downloaded", format!("chunk {k} of object{obj} was served although it was never downloaded"));
        }
    }
}

/// Faults of the store so far.
fn get_faults() -> u64 {
    asim::with(|w| w.stats.iter().filter(|(k, _)| k.starts_with("fault:get")).map(|(_, n)| *n).sum()).unwrap_or(0)
}

fn failed(sh: &Shared, there: bool, obj: usize, r: Range<usize>, before: u64, e: &object_store::Error) {

    asim::count("failed reads");
    // faults of the cache's disk are no excuse
    if there && get_faults() == before && r.start < r.end && r.end <= sh.plan.objects[obj] {
        sh.fail(&["K01", "K03"], "error-without-fault", format!("reading object{obj} ({} bytes) {}..{} fails: {e}", sh.plan.objects[obj], r.start, r.end));
    }
}

async fn scenario(sh: Rc<Shared>) {
    let p = sh.plan.clone();
    for (i, len) in p.objects.iter().enumerate().take(p.present) {
        sh.sim.inner.put(&path(i), PutPayload::from(data(i, *len))).await.unwrap();
        sh.put.borrow_mut()[i] = true;
    }
    let scratch = tempfile::TempDir::new().unwrap();
    let inner: Arc<dyn ObjectStore> = Arc::new(sh.sim.clone());
    let one;
    let base = if p.config {
        // it makes its own temporary directory
        let usual = std::env::var_os("TMPDIR");
        std::env::set_var("TMPDIR", scratch.path());
        one = CachingObjectStore::new_from_config(&ObjectCacheProperties { capacity: p.capacity, min_fetch_size: p.chunk, ttl: p.ttl }, inner);
        match usual {
            Some(d) => std::env::set_var("TMPDIR", d),
            None => std::env::remove_var("TMPDIR"),
        }
        let d = std::fs::read_dir(scratch.path()).unwrap().flatten().next().map(|e| e.path());
        d.unwrap_or_else(|| scratch.path().join("none"))
    } else {
        let base = scratch.path().join("cache");
        std::fs::create_dir(&base).unwrap();
        one = CachingObjectStore::new(inner, &base, p.chunk, p.capacity, Duration::from_secs(p.ttl));
        base
    };
    *sh.dir.borrow_mut() = base.clone();
    let two = CachingObjectStore::new_from_sibling(&one, Arc::new(sh.sim.clone()));
    let stores: Vec<Arc<dyn ObjectStore>> = vec![Arc::new(one), Arc::new(two)];
    asim::with(|w| w.faults = Faults { rates: vec![("file remove", p.file_faults, 300), ("file", p.file_faults, 500), ("get", p.store_faults, 500), ("put", p.store_faults, 500)], budget: p.budget });
    sh.busy.set(p.clients.len() as u32);
    let hs: Vec<_> = p
        .clients
        .iter()
        .enumerate()
        .map(|(i, ops)| {
            let me = format!("client{i}");
            asim::spawn_client(me.clone(), client(me, ops.clone(), stores.clone(), sh.clone()))
        })
        .collect();
    for h in hs {
        if h.await.is_err() {
            sh.fail(&["K01", "K03"], "panic", "a client panicked".into());
        }
    }
    if sh.bad.borrow().is_some() {
        return;
    }
    let removal_faults = asim::with(|w| w.stats.iter().any(|(k, _)| k.starts_with("fault:file")) ).unwrap_or(false);
    // everything heals
    asim::calm();
    asim::note("        faults end");
    let existing: Vec<usize> = (0..p.objects.len()).filter(|i| sh.put.borrow()[*i]).collect();
    asim::CLIENT
        .scope("after".into(), async {
            let whole: Vec<(usize, Range<usize>)> = existing
                .iter()
                .flat_map(|o| {
                    let n = p.objects[*o];
                    let c = p.chunk as usize;
                    let mut v: Vec<(usize, Range<usize>)> = (0..n.div_ceil(c)).map(|k| (*o, k * c..(k + 1) * c)).collect();
                    if n > 0 {
                        v.push((*o, 0..n));
                        v.push((*o, n / 2..n));
                    }
                    v.retain(|x| x.1.start < x.1.end && x.1.start < n);
                    v
                })
                .collect();
            // reads straight after the last fault, and after things settled
            for (round, wait) in [0u64, 50, 400].into_iter().enumerate() {
                tokio::time::sleep(Duration::from_millis(wait)).await;
                for (o, r) in &whole {
                    if sh.bad.borrow().is_some() {
                        return;
                    }
                    match guard(stores[round % 2].get_range(&path(*o), r.clone())).await {
                        Err(e) => sh.fail(&["K01", "K03"], "panic", format!("reading object{o} {r:?} after the faults panicked: {e}")),
                        Ok(Ok(b)) => sh.check("read after the faults", *o, r.clone(), &b),
                        Ok(Err(e)) => sh.fail(&["K03"], "sticky-failure", format!("reading object{o} {r:?} still fails after the faults ended: {e}")),
                    }
                }
                asim::count("chunks read after the faults");
            }
            settle(&stores, &sh).await;
            let before = sh.files();
            let live = live(&stores, &sh).await;
            settle(&stores, &sh).await;
            let after = sh.files();
            let bytes: u64 = before.iter().map(|f| f.1).sum();
            let live_bytes: u64 = live.iter().map(|l| l.2).sum();
            asim::count_n("files compared with live entries", before.len() as u64);
            let too_much = if live_bytes > p.capacity { live_bytes } else if removal_faults { 0 } else { bytes };
            if too_much > p.capacity {
                let kind = "over-capacity";
                sh.fail(&["K02"], kind, format!("{bytes} bytes in {} files, {live_bytes} bytes in {} live entries with a capacity of {}, nothing going on", before.len(), live.len(), p.capacity));
            }
            // entries may expire meanwhile, but none is added; expired ones go once those written
            // before them have
            let expired = asim::sys::elapsed_us() > p.ttl * 1_000_000;
            if after.len() > live.len() && !removal_faults && !expired {
                sh.fail(&["K02"], "leftover-file", format!("files {after:?} but only {} live entries: {:?}", live.len(), live));
            }
            if before.len() < live.len() {
                sh.fail(&["K02"], "entry-without-file", format!("{} live entries {:?} but files {before:?}", live.len(), live));
            }
            if sh.bad.borrow().is_some() {
                return;
            }
            // everything expires
            tokio::time::sleep(Duration::from_millis(p.ttl * 1000 + 700)).await;
            let still = self::live(&stores, &sh).await;
            if !still.is_empty() {
                sh.fail(&["K02"], "not-expired", format!("entries {still:?} are still served after the time to live of {} s", p.ttl));
            }
            settle(&stores, &sh).await;
            let files = sh.files();
            if !files.is_empty() && !removal_faults {
                sh.fail(&["K02"], "leftover-file", format!("files {files:?} although every entry has expired"));
            }
            // the cache itself is dropped
            drop(stores);
        })
        .await;
    tokio::time::sleep(Duration::from_millis(500)).await;
    if sh.bad.borrow().is_none() && base.exists() {
        sh.fail(&["K02"], "leftover-directory", format!("the cache is gone but its directory still has {:?}", sh.files()));
    }
}

/// Let expiry, eviction and writing finish: the cache does its housekeeping as part of reads.
async fn settle(stores: &[Arc<dyn ObjectStore>], sh: &Shared) {
    sh.sim.offline.store(true, std::sync::atomic::Ordering::SeqCst);
    for _ in 0..3 {
        tokio::time::sleep(Duration::from_millis(320)).await;
        // an object nobody has: only the housekeeping that goes with the attempt counts
        let _ = guard(stores[0].get_range(&Path::from("nothing"), 0..1)).await;
    }
    tokio::time::sleep(Duration::from_millis(20)).await;
    sh.sim.offline.store(false, std::sync::atomic::Ordering::SeqCst);
}

/// Which chunks the cache serves with the store unreachable.
async fn live(stores: &[Arc<dyn ObjectStore>], sh: &Shared) -> Vec<(usize, usize, u64)> {
    sh.sim.offline.store(true, std::sync::atomic::Ordering::SeqCst);
    let c = sh.plan.chunk as usize;
    let mut v = vec![];
    for o in 0..sh.plan.objects.len() {
        for k in 0..sh.plan.objects[o].div_ceil(c) + 3 {
            if let Ok(Ok(b)) = guard(stores[0].get_range(&path(o), k * c..(k + 1) * c)).await {
                sh.check("read with the store unreachable", o, k * c..(k + 1) * c, &b);
                v.push((o, k, b.len() as u64));
            }
        }
    }
    sh.sim.offline.store(false, std::sync::atomic::Ordering::SeqCst);
    v
}

/// Pending operations of moka 0.12.8 that come out of order, or for entries gone since, make its idea
/// of what it holds drift. What goes wrong in a run only for that reason, and so in none of many runs of
/// the same plan with a moka that heeds the order, is told apart.
pub fn run(prop: &str, p: &Plan, d: Decider) -> RunResult {
    let order = std::sync::atomic::Ordering::SeqCst;
    moka::REPAIRED.store(false, order);
    let mut r = run_once(prop, p, d);
    if let (Some(v), "K02") = (&mut r.violation, prop) {
        moka::REPAIRED.store(true, order);
        let again = std::iter::once(Decider::traced(r.decisions.clone())).chain((0..40).map(|i| Decider::seeded(0x6d6f6b61 + i)));
        let mut same = false;
        for d in again {
            if run_once(prop, p, d).violation.is_some() {
                same = true;
                break;
            }
        }
        if !same {
            v.kind = "moka-drift".into();
        }
        moka::REPAIRED.store(false, order);
    }
    r
}

fn run_once(prop: &str, p: &Plan, d: Decider) -> RunResult {
    let (prop, p) = (prop.to_string(), p.clone());
    let res = asim::isolated(move || {
        let mut res = RunResult::default();
        asim::begin(d);
        let sh = Rc::new(Shared {
            prop,
            bad: RefCell::new(None),
            sim: SimStore::new(""),
            dir: Default::default(),
            put: RefCell::new(vec![false; p.objects.len()]),
            busy: Cell::new(0),
            plan: p.clone(),
        });
        let cfg = asim::Config { sticky: p.sticky, stall: p.stall, stall_ms: p.stall_ms.clone(), max_steps: 20_000 };
        let (s2, s3) = (sh.clone(), sh.clone());
        let end = asim::run(&cfg, async move { scenario(s2).await }, move || s3.bad.borrow().is_none());
        let w = asim::end();
        if sh.bad.borrow().is_none() {
            match end {
                End::Stuck => sh.fail(&["K03"], "hang", "a read is never answered although nothing is pending".into()),
                End::Endless => sh.fail(&["K03"], "hang", "reads are not answered within 20000 steps".into()),
                _ => {}
            }
            if w.stats.contains_key("background panics") {
                sh.fail(&["K01", "K03"], "panic", "a task in the background panicked".into());
            }
        }
        res.violation = sh.bad.borrow().clone();
        res.nontrivial = p.clients.len() > 1 || w.fired > 0 || p.quiet;
        res.stats = w.stats;
        res.states = w.states;
        res.log = w.log;
        res.steps = w.steps;
        res.decisions = w.d.log;
        res.sim_us = asim::sys::elapsed_us();
        res
    });
    match res {
        Ok(r) => r,
        Err(e) => {
            let what = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness panicked: {what}");
            std::process::abort()
        }
    }
}

pub struct CacheSim;
impl Sim for CacheSim {
    type Plan = Plan;
    const NAME: &'static str = "cache-sim";
    fn gen(_prop: &str, rng: &mut Rng, index: u64, thorough: bool) -> Plan {
        gen(rng, index, thorough)
    }
    fn run(prop: &str, plan: &Plan, d: Decider) -> RunResult {
        run(prop, plan, d)
    }
    fn shrink(plan: &Plan) -> Vec<Plan> {
        shrink(plan)
    }
    fn meta(_prop: &str) -> Meta {
        Meta {
            level: "exploration",
            quick_runs: 2_000_000,
            thorough_runs: 100_000_000,
            quick_secs: 40,
            thorough_secs: 3000,
            batch: 300,
            rule: "runs with several readers, an injected fault, or waits for expiry".into(),
            state_measure: "hash of the sequence of operations (object store requests, file operations, task starts) and their outcomes so far, at every step".into(),
            real: vec!["src/object_store/cache.rs", "moka 0.12.8 (vendored copy, unchanged but for a switch used to tell its own races apart)", "Linux file system of the scratch directory", "object_store InMemory, get_ranges"],
            stub: vec!["order of all asynchronous operations, task starts and time (simulated tokio)", "object store faults: refused requests, bodies cut off, lost answers", "cache disk faults: failed opens, short writes, failed reads and removals"],
            assumptions: vec!["objects are immutable, as the files of tables are".into(), "moka runs without its quanta clock feature, on the simulated clock".into()],
            probes: vec!["reads served by the cache", "expiry checks", "fault:get fails", "fault:get fails after taking effect", "fault:file fails", "fault:file fails after taking effect", "fault:cache file lost", "files compared with live entries"],
        }
    }
}
