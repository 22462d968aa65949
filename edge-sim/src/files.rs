//! F01: the real fast_upload over a real scratch directory. The C library calls that std and tokio
//! make are interposed: each one is a scheduling point, a crash point, and may be made to fail, to do
//! less than asked, or to answer as two different file systems would.

use crate::gate::{self, gate, shared, St};
use serde::{Deserialize, Serialize};
use simcore::{Decider, Rng, RunResult, Violation};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Upload {
    pub size: usize,
    /// How deep below the target root the target lies, and whether those directories exist.
    pub depth: u32,
    pub dirs_exist: bool,
    /// An older file of this size is at the target.
    pub existing: Option<usize>,
    /// ... or of the new file's size, and it begins like the new file (what an interrupted copy left).
    pub same_size: bool,
    pub same_head: bool,
    pub relative: bool,
    /// Shares its target directory with the other uploads.
    pub shared_dir: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub uploads: Vec<Upload>,
    pub cross_device: bool,
    /// 0 works, 1 EXDEV, 2 ENOSYS, 3 EINVAL, 4 EOPNOTSUPP
    pub copy_range: u8,
    pub sendfile: u8,
    pub short: u32,
    pub faults: u32,
    pub fault_budget: u32,
    pub crash: u32,
    pub sticky: u32,
    pub retry: bool,
}

pub fn gen(rng: &mut Rng, _i: u64, thorough: bool) -> Plan {
    let n = if thorough { rng.range(1, 4) } else { rng.range(1, 3) };
    let faulty = rng.chance(600);
    Plan {
        uploads: (0..n)
            .map(|_| Upload {
                size: *rng.pick(&[0, 1, 100, 4096, 8192, 8193, 70_000, 300_000]),
                depth: rng.below(4) as u32,
                dirs_exist: rng.chance(400),
                existing: if rng.chance(350) { Some(*rng.pick(&[0usize, 10, 100_000, 400_000])) } else { None },
                same_size: rng.chance(500),
                same_head: rng.chance(500),
                relative: false,
                shared_dir: rng.chance(400),
            })
            .collect(),
        cross_device: rng.chance(650),
        // not ENOSYS: std remembers that for the life of the process
        copy_range: *rng.pick(&[0u8, 1, 3, 4]),
        sendfile: rng.below(2) as u8,
        short: *rng.pick(&[0, 0, 300, 900]),
        faults: if faulty { *rng.pick(&[30, 100, 250]) } else { 0 },
        fault_budget: rng.range(1, 4) as u32,
        crash: if rng.chance(400) { *rng.pick(&[20, 60, 150]) } else { 0 },
        sticky: *rng.pick(&[0, 0, 500]),
        retry: rng.chance(500),
    }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for i in 0..p.uploads.len() {
        if p.uploads.len() > 1 {
            let mut q = p.clone();
            q.uploads.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.uploads.len() {
        let u = &p.uploads[i];
        for w in [
            Upload { existing: None, ..u.clone() },
            Upload { same_head: false, ..u.clone() },
            Upload { same_size: false, ..u.clone() },
            Upload { depth: 0, ..u.clone() },
            Upload { dirs_exist: true, ..u.clone() },
            Upload { size: 100, ..u.clone() },
            Upload { shared_dir: false, ..u.clone() },
        ] {
            let mut q = p.clone();
            q.uploads[i] = w;
            if format!("{:?}", q) != format!("{:?}", p) && q.uploads[i].size <= u.size {
                v.push(q);
            }
        }
    }
    for q in [
        Plan { crash: 0, ..p.clone() },
        Plan { faults: 0, ..p.clone() },
        Plan { short: 0, ..p.clone() },
        Plan { copy_range: 0, ..p.clone() },
        Plan { sendfile: 0, ..p.clone() },
        Plan { retry: false, ..p.clone() },
        Plan { cross_device: false, ..p.clone() },
    ] {
        if format!("{:?}", q) != format!("{:?}", p) {
            v.push(q);
        }
    }
    v
}

// ---------------------------------------------------------------- the simulated kernel boundary

struct World {
    root: String,
    plan: Plan,
    fds: BTreeMap<i32, (usize, String)>,
    budget: u32,
    /// Faults that fired, per task.
    faulted: Vec<u32>,
    calls: u64,
}
static ON: AtomicBool = AtomicBool::new(false);
static DEAD: AtomicBool = AtomicBool::new(false);
fn world() -> &'static Mutex<Option<World>> {
    static W: OnceLock<Mutex<Option<World>>> = OnceLock::new();
    W.get_or_init(Default::default)
}
fn errno(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn active() -> bool {
    ON.load(Ordering::Relaxed) && gate::task().is_some()
}
fn path_of(p: *const c_char) -> String {
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    if s.starts_with('/') {
        s
    } else {
        format!("{}/{}", std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default(), s)
    }
}
/// The path, if it lies in this run's scratch directory.
fn ours(p: *const c_char) -> Option<String> {
    if !active() || p.is_null() {
        return None;
    }
    let s = path_of(p);
    let w = world().lock().unwrap_or_else(|e| e.into_inner());
    w.as_ref().filter(|w| s.starts_with(&w.root)).map(|w| s[w.root.len()..].to_string())
}
fn our_fd(fd: c_int) -> Option<String> {
    if !active() {
        return None;
    }
    let w = world().lock().unwrap_or_else(|e| e.into_inner());
    w.as_ref().and_then(|w| w.fds.get(&fd)).map(|x| x.1.clone())
}
fn note(s: String) {
    let t = gate::task();
    shared().note(format!("upload {}: {s}", t.unwrap_or(99)));
}

enum Verdict {
    Go,
    Err(c_int),
    /// The process dies during this call, after this part of it took effect.
    Partial,
}

/// Scheduling point, crash point and fault point in front of one call.
fn before(what: &str, errs: &[c_int]) -> Verdict {
    if DEAD.load(Ordering::SeqCst) {
        return Verdict::Err(libc::EIO);
    }
    gate(what);
    if DEAD.load(Ordering::SeqCst) {
        return Verdict::Err(libc::EIO);
    }
    let mut w = world().lock().unwrap_or_else(|e| e.into_inner());
    let Some(w) = w.as_mut() else { return Verdict::Go };
    w.calls += 1;
    let t = gate::task().unwrap_or(0);
    let mut s = shared();
    if s.d.chance(w.plan.crash) {
        DEAD.store(true, Ordering::SeqCst);
        s.count("fault:process crash");
        let part = s.d.chance(500);
        drop(s);
        note(format!("{what}: the process is killed"));
        return if part { Verdict::Partial } else { Verdict::Err(libc::EIO) };
    }
    if w.budget > 0 && !errs.is_empty() && s.d.chance(w.plan.faults) {
        w.budget -= 1;
        w.faulted[t] += 1;
        let e = errs[s.d.choose(errs.len() as u32) as usize];
        let name = match e {
            libc::EIO => "EIO",
            libc::ENOSPC => "ENOSPC",
            libc::EACCES => "EACCES",
            libc::EDQUOT => "EDQUOT",
            libc::EMFILE => "EMFILE",
            libc::EROFS => "EROFS",
            libc::EPERM => "EPERM",
            libc::EINTR => "EINTR",
            libc::ENOMEM => "ENOMEM",
            libc::EBUSY => "EBUSY",
            _ => "other",
        };
        s.count(&format!("fault:{name} from {}", what.split(' ').next().unwrap_or("")));
        drop(s);
        note(format!("{what} -> {name}"));
        return Verdict::Err(e);
    }
    drop(s);
    note(what.to_string());
    Verdict::Go
}

/// How many bytes of `n` this call transfers.
fn how_many(n: usize, dying: bool) -> usize {
    let w = world().lock().unwrap_or_else(|e| e.into_inner());
    let short = w.as_ref().map(|w| w.plan.short).unwrap_or(0);
    drop(w);
    let mut s = shared();
    if n > 1 && (dying || s.d.chance(short)) {
        s.count("fault:short transfer");
        1 + s.d.choose(n.min(100_000) as u32) as usize
    } else {
        n
    }
}

fn devices(a: &str, b: &str) -> bool {
    let w = world().lock().unwrap_or_else(|e| e.into_inner());
    let x = w.as_ref().map(|w| w.plan.cross_device).unwrap_or(false);
    x && a.split('/').nth(1) != b.split('/').nth(1)
}
fn set(errno_from: i64) -> i64 {
    errno_from
}

macro_rules! sys {
    ($($a:expr),*) => { set(unsafe { libc::syscall($($a),*) } as i64) }
}

fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let Some(p) = (if dirfd == libc::AT_FDCWD { ours(path) } else { None }) else {
        return sys!(libc::SYS_openat, dirfd, path, flags, mode as c_uint) as c_int;
    };
    let mut errs = vec![libc::EIO, libc::EACCES, libc::EMFILE];
    if flags & libc::O_CREAT != 0 {
        errs.push(libc::ENOSPC);
    }
    let trunc = if flags & libc::O_TRUNC != 0 { " truncating" } else { "" };
    match before(&format!("open {p}{trunc}"), &errs) {
        Verdict::Err(e) => errno(e),
        Verdict::Partial => {
            let fd = sys!(libc::SYS_openat, dirfd, path, flags, mode as c_uint) as c_int;
            if fd >= 0 {
                sys!(libc::SYS_close, fd);
            }
            errno(libc::EIO)
        }
        Verdict::Go => {
            let fd = sys!(libc::SYS_openat, dirfd, path, flags, mode as c_uint) as c_int;
            if fd >= 0 {
                if let Some(w) = world().lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
                    w.fds.insert(fd, (gate::task().unwrap_or(0), p));
                }
            }
            fd
        }
    }
}
#[no_mangle]
pub extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(d, path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub extern "C" fn close(fd: c_int) -> c_int {
    if ON.load(Ordering::Relaxed) {
        if let Some(w) = world().lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            w.fds.remove(&fd);
        }
    }
    sys!(libc::SYS_close, fd) as c_int
}
fn two_paths(what: &str, ap: *const c_char, bp: *const c_char, run: impl Fn() -> c_int) -> c_int {
    let (Some(a), Some(b)) = (ours(ap), ours(bp)) else { return run() };
    match before(&format!("{what} {a} to {b}"), &[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EROFS]) {
        Verdict::Err(e) => errno(e),
        Verdict::Partial => {
            if !devices(&a, &b) {
                run();
            }
            errno(libc::EIO)
        }
        Verdict::Go => {
            if devices(&a, &b) {
                shared().count("cross-device moves");
                return errno(libc::EXDEV);
            }
            run()
        }
    }
}
#[no_mangle]
pub extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    two_paths("rename", a, b, || sys!(libc::SYS_rename, a, b) as c_int)
}
#[no_mangle]
pub extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    two_paths("rename", a, b, || sys!(libc::SYS_renameat, d, a, e, b) as c_int)
}
#[no_mangle]
pub extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_uint) -> c_int {
    two_paths("rename", a, b, || sys!(libc::SYS_renameat2, d, a, e, b, f) as c_int)
}
#[no_mangle]
pub extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    two_paths("link", a, b, || sys!(libc::SYS_link, a, b) as c_int)
}
#[no_mangle]
pub extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    two_paths("link", a, b, || sys!(libc::SYS_linkat, d, a, e, b, f) as c_int)
}
fn one_path(what: &str, p: *const c_char, errs: &[c_int], run: impl Fn() -> c_int) -> c_int {
    let Some(a) = ours(p) else { return run() };
    match before(&format!("{what} {a}"), errs) {
        Verdict::Err(e) => errno(e),
        Verdict::Partial => {
            run();
            errno(libc::EIO)
        }
        Verdict::Go => run(),
    }
}
#[no_mangle]
pub extern "C" fn unlink(p: *const c_char) -> c_int {
    one_path("unlink", p, &[libc::EIO, libc::EACCES, libc::EPERM, libc::EBUSY], || sys!(libc::SYS_unlink, p) as c_int)
}
#[no_mangle]
pub extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    one_path("unlink", p, &[libc::EIO, libc::EACCES, libc::EPERM, libc::EBUSY], || sys!(libc::SYS_unlinkat, d, p, f) as c_int)
}
#[no_mangle]
pub extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int {
    one_path("mkdir", p, &[libc::EIO, libc::EACCES, libc::ENOSPC], || sys!(libc::SYS_mkdir, p, m as c_uint) as c_int)
}
#[no_mangle]
pub extern "C" fn truncate64(p: *const c_char, n: i64) -> c_int {
    one_path("truncate", p, &[libc::EIO], || sys!(libc::SYS_truncate, p, n) as c_int)
}
fn one_fd(what: &str, fd: c_int, errs: &[c_int], run: impl Fn() -> c_int) -> c_int {
    let Some(a) = our_fd(fd) else { return run() };
    match before(&format!("{what} {a}"), errs) {
        Verdict::Err(e) => errno(e),
        Verdict::Partial => {
            run();
            errno(libc::EIO)
        }
        Verdict::Go => run(),
    }
}
#[no_mangle]
pub extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    one_fd("ftruncate", fd, &[libc::EIO, libc::ENOSPC], || sys!(libc::SYS_ftruncate, fd, n) as c_int)
}
#[no_mangle]
pub extern "C" fn fsync(fd: c_int) -> c_int {
    one_fd("fsync", fd, &[libc::EIO, libc::ENOSPC], || sys!(libc::SYS_fsync, fd) as c_int)
}
#[no_mangle]
pub extern "C" fn fdatasync(fd: c_int) -> c_int {
    one_fd("fdatasync", fd, &[libc::EIO, libc::ENOSPC], || sys!(libc::SYS_fdatasync, fd) as c_int)
}
#[no_mangle]
pub extern "C" fn fchmod(fd: c_int, m: libc::mode_t) -> c_int {
    one_fd("fchmod", fd, &[libc::EIO, libc::EPERM], || sys!(libc::SYS_fchmod, fd, m as c_uint) as c_int)
}
fn transfer(what: &str, fd: c_int, n: usize, errs: &[c_int], run: impl Fn(usize) -> isize) -> isize {
    let Some(a) = our_fd(fd) else { return run(n) };
    match before(&format!("{what} {a}"), errs) {
        Verdict::Err(e) => errno(e) as isize,
        Verdict::Partial => {
            run(how_many(n, true));
            errno(libc::EIO) as isize
        }
        Verdict::Go => run(how_many(n, false)),
    }
}
#[no_mangle]
pub extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if !active() {
        return sys!(libc::SYS_read, fd, b, n) as isize;
    }
    transfer("read", fd, n, &[libc::EIO, libc::EINTR], |n| sys!(libc::SYS_read, fd, b, n) as isize)
}
#[no_mangle]
pub extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if !active() {
        return sys!(libc::SYS_write, fd, b, n) as isize;
    }
    transfer("write", fd, n, &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EINTR], |n| sys!(libc::SYS_write, fd, b, n) as isize)
}
#[no_mangle]
pub extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: c_uint) -> isize {
    let (Some(pa), Some(pb)) = (our_fd(a), our_fd(b)) else {
        return sys!(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as isize;
    };
    let mode = world().lock().unwrap_or_else(|e| e.into_inner()).as_ref().map(|w| w.plan.copy_range).unwrap_or(0);
    if mode > 0 && devices(&pa, &pb) && !DEAD.load(Ordering::SeqCst) {
        return errno([0, libc::EXDEV, libc::ENOSYS, libc::EINVAL, libc::EOPNOTSUPP][mode as usize]) as isize;
    }
    transfer("copy_file_range", b, n.min(1 << 20), &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::ENOMEM], |n| {
        sys!(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as isize
    })
}
fn do_sendfile(out: c_int, inp: c_int, off: *mut i64, n: usize) -> isize {
    if our_fd(out).is_none() {
        return sys!(libc::SYS_sendfile, out, inp, off, n) as isize;
    }
    let mode = world().lock().unwrap_or_else(|e| e.into_inner()).as_ref().map(|w| w.plan.sendfile).unwrap_or(0);
    if mode > 0 && !DEAD.load(Ordering::SeqCst) {
        return errno([0, libc::EINVAL, libc::ENOSYS][mode as usize]) as isize;
    }
    transfer("sendfile", out, n.min(1 << 20), &[libc::EIO, libc::ENOSPC, libc::ENOMEM], |n| sys!(libc::SYS_sendfile, out, inp, off, n) as isize)
}
#[no_mangle]
pub extern "C" fn sendfile(out: c_int, inp: c_int, off: *mut i64, n: usize) -> isize {
    do_sendfile(out, inp, off, n)
}
#[no_mangle]
pub extern "C" fn sendfile64(out: c_int, inp: c_int, off: *mut i64, n: usize) -> isize {
    do_sendfile(out, inp, off, n)
}

// ---------------------------------------------------------------- the run

fn content(i: usize, n: usize, what: &str) -> Vec<u8> {
    let mut r = Rng::new(simcore::hash_str(&format!("{what}{i}")));
    let mut v = vec![0u8; n];
    r.fill(&mut v);
    v
}

pub fn run(p: &Plan, d: Decider) -> RunResult {
    gate::reset(d);
    DEAD.store(false, Ordering::SeqCst);
    let tmp = tempfile::Builder::new().prefix("edge-f01-").tempdir().unwrap();
    let root = tmp.path().canonicalize().unwrap();
    std::fs::create_dir_all(root.join("tmp")).unwrap();
    std::fs::create_dir_all(root.join("store")).unwrap();
    // other files of the store, which nothing may touch
    let mut bystanders: Vec<(PathBuf, Vec<u8>)> = vec![];
    let n = p.uploads.len();
    let mut src = vec![];
    let mut dst = vec![];
    let mut want = vec![];
    for (i, u) in p.uploads.iter().enumerate() {
        let s = root.join("tmp").join(format!("part-{i}"));
        let mut dir = root.join("store");
        for k in 0..u.depth {
            dir = dir.join(if u.shared_dir { format!("d{k}") } else { format!("d{k}-{i}") });
        }
        if u.dirs_exist || u.existing.is_some() {
            std::fs::create_dir_all(&dir).unwrap();
        }
        let t = dir.join(format!("obj-{i}.parquet"));
        let c = content(i, u.size, "new");
        std::fs::write(&s, &c).unwrap();
        if let Some(e) = u.existing {
            let mut old = content(i, if u.same_size { u.size } else { e }, "old");
            if u.same_head {
                let k = old.len().min(c.len()) / 2;
                old[..k].copy_from_slice(&c[..k]);
            }
            std::fs::write(&t, old).unwrap();
        }
        src.push(s);
        dst.push(t);
        want.push(c);
    }
    for (k, f) in [root.join("store/other"), root.join("tmp/other")].into_iter().enumerate() {
        let c = content(k, 500, "bystander");
        std::fs::write(&f, &c).unwrap();
        bystanders.push((f, c));
    }
    let (mut violation, mut steps, mut states) = (None::<Violation>, 0, vec![]);
    let mut crashed = false;
    let mut results: Vec<Option<Result<(), String>>> = vec![None; n];
    let mut faulted = vec![0u32; n];
    let mut calls = 0;
    for round in 0..2 {
        let plan = if round == 0 { p.clone() } else { Plan { faults: 0, crash: 0, short: 0, ..p.clone() } };
        if round == 1 && (!p.retry || violation.is_some()) {
            break;
        }
        *world().lock().unwrap() = Some(World { root: root.display().to_string(), plan: plan.clone(), fds: Default::default(), budget: p.fault_budget, faulted: vec![0; n], calls: 0 });
        DEAD.store(false, Ordering::SeqCst);
        let out: Arc<Mutex<Vec<Option<Result<(), String>>>>> = Arc::new(Mutex::new(vec![None; n]));
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for i in 0..n {
            let (s, t, out) = (src[i].clone(), dst[i].clone(), out.clone());
            // the second round is the caller trying again what did not succeed, or what a crash cut off
            let skip = round == 1 && (matches!(results[i], Some(Ok(()))) || !s.exists());
            tasks.push(Box::new(move || {
                if skip {
                    return;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let rt = tokio::runtime::Builder::new_current_thread()
                        .max_blocking_threads(1)
                        .on_thread_start(move || gate::set_task(Some(i)))
                        .build()
                        .unwrap();
                    rt.block_on(seafowl::object_store::utils::fast_upload(&s, t.display().to_string())).map_err(|e| e.to_string())
                }));
                let r = match r {
                    Ok(r) => r,
                    Err(_) => Err("panicked".to_string()),
                };
                note(format!("upload returns {}", if r.is_ok() { "Ok" } else { "Err" }));
                out.lock().unwrap()[i] = Some(r);
                gate("returned");
            }));
        }
        ON.store(true, Ordering::SeqCst);
        let done_before = results.clone();
        let o = gate::run(tasks, p.sticky, 5000, |_st: &[St], labels| {
            if violation.is_some() {
                return None;
            }
            let mut h = simcore::Fnv::new();
            let dead = DEAD.load(Ordering::SeqCst);
            for i in 0..n {
                let a = std::fs::read(&src[i]).ok();
                let b = std::fs::read(&dst[i]).ok();
                let (ca, cb) = (a.as_deref() == Some(&want[i][..]), b.as_deref() == Some(&want[i][..]));
                h.write(format!("{:?}{:?}{}", a.map(|x| x.len()), b.as_ref().map(|x| x.len()), labels[i]).as_bytes());
                if !ca && !cb {
                    violation = Some(Violation { kind: "lost".into(), detail: format!("upload {i} ({} bytes): no complete copy at the source or the target ({})", want[i].len(), match b { Some(b) => format!("the target has {} bytes", b.len()), None => "no target".into() }) });
                }
                let r = if done_before[i].as_ref().is_some_and(|r| r.is_ok()) { done_before[i].clone() } else { out.lock().unwrap()[i].clone() };
                if let Some(r) = r {
                    if r.is_ok() && !cb {
                        violation = Some(Violation { kind: "incomplete".into(), detail: format!("upload {i} reported success, the target is not the whole file") });
                    } else if r.is_ok() && src[i].exists() {
                        violation = Some(Violation { kind: "source-left".into(), detail: format!("upload {i} reported success, the source is still there") });
                    } else if r == Err("panicked".to_string()) {
                        violation = Some(Violation { kind: "panic".into(), detail: format!("upload {i} panicked") });
                    } else if r.is_err() && !dead {
                        let f = world().lock().unwrap().as_ref().map(|w| w.faulted.clone()).unwrap_or_default();
                        // a directory one upload could not make is missing for those that share it
                        let any: u32 = f.iter().sum();
                        if f[i] == 0 && !(p.uploads[i].shared_dir && any > 0) {
                            violation = Some(Violation { kind: "spurious-error".into(), detail: format!("upload {i} failed though no operation failed: {}", r.unwrap_err().replace(&root.display().to_string(), "")) });
                        }
                    }
                }
            }
            for (f, c) in &bystanders {
                if std::fs::read(f).ok().as_deref() != Some(&c[..]) {
                    violation = Some(Violation { kind: "bystander".into(), detail: format!("{} was changed", f.strip_prefix(&root).unwrap().display()) });
                }
            }
            Some(h.0)
        });
        ON.store(false, Ordering::SeqCst);
        let w = world().lock().unwrap().take().unwrap();
        steps += o.steps;
        states.extend(o.states);
        calls += w.calls;
        if round == 0 {
            faulted = w.faulted.clone();
            crashed = DEAD.load(Ordering::SeqCst);
            if crashed {
                // nobody was told
                for (i, r) in out.lock().unwrap().iter().enumerate() {
                    results[i] = r.clone().filter(|r| r.is_ok());
                }
            } else {
                results = out.lock().unwrap().clone();
            }
        }
        if o.stuck && violation.is_none() {
            violation = Some(Violation { kind: "stuck".into(), detail: "an upload does not end".into() });
        }
    }
    let mut res = RunResult::default();
    let mut s = shared();
    res.stats = std::mem::take(&mut s.stats);
    res.count("file operations", calls);
    res.count("uploads", n as u64);
    res.violation = violation;
    res.states = states;
    res.steps = steps;
    res.nontrivial = n > 1 || crashed || faulted.iter().sum::<u32>() > 0 || p.cross_device;
    let rs = root.display().to_string();
    res.log = std::mem::take(&mut s.log).into_iter().map(|l| l.replace(&rs, "")).collect();
    res.decisions = std::mem::take(&mut s.d.log);
    drop(s);
    drop(tmp);
    res
}
