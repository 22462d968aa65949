//! SQLite VFS over the simulated machine. Registered as the process-wide default VFS.

use crate::world::*;
use libsqlite3_sys as ffi;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::Once;

#[repr(C)]
struct SimFile {
    base: ffi::sqlite3_file,
    handle: u64,
    epoch: u64,
    proc: usize,
}

const OK: c_int = 0;
const BUSY: c_int = 5;
const IOERR: c_int = 10;
const IOERR_READ: c_int = IOERR | (1 << 8);
const IOERR_SHORT_READ: c_int = IOERR | (2 << 8);
const IOERR_WRITE: c_int = IOERR | (3 << 8);
const IOERR_FSYNC: c_int = IOERR | (4 << 8);
const IOERR_TRUNCATE: c_int = IOERR | (6 << 8);
const IOERR_DELETE: c_int = IOERR | (10 << 8);
const IOERR_LOCK: c_int = IOERR | (15 << 8);
const IOERR_SHMOPEN: c_int = IOERR | (18 << 8);
const IOERR_SHMLOCK: c_int = IOERR | (20 << 8);
const IOERR_DELETE_NOENT: c_int = IOERR | (23 << 8);
const NOTFOUND: c_int = 12;
const FULL: c_int = 13;
const CANTOPEN: c_int = 14;

unsafe fn sf<'a>(f: *mut ffi::sqlite3_file) -> &'a mut SimFile {
    &mut *(f as *mut SimFile)
}

/// "/sim/p3/cat.db-wal" -> (3, "cat.db-wal")
fn split(name: &str) -> Option<(usize, String)> {
    let rest = name.strip_prefix("/sim/")?;
    let (p, f) = rest.split_once('/')?;
    let pid = if p == "obs" { OBS } else { p.strip_prefix('p')?.parse().ok()? };
    Some((pid, f.to_string()))
}

unsafe extern "C" fn x_open(_v: *mut ffi::sqlite3_vfs, name: ffi::sqlite3_filename, file: *mut ffi::sqlite3_file, flags: c_int, out: *mut c_int) -> c_int {
    (*file).pMethods = std::ptr::null();
    let name = if name.is_null() { None } else { Some(CStr::from_ptr(name).to_string_lossy().into_owned()) };
    let g = world();
    let epoch = g.epoch;
    let (pid, path) = match &name {
        Some(n) => match split(n) {
            Some(x) => x,
            None => return CANTOPEN,
        },
        None => (OBS, String::new()),
    };
    let (mut g, dir) = point(g, epoch, pid, "open", true);
    match dir {
        Dir::Go => {}
        Dir::Fail => return CANTOPEN,
        Dir::Stale => return CANTOPEN,
    }
    let ino = if path.is_empty() {
        let n = g.next_ino;
        g.next_ino += 1;
        g.inodes.insert(n, Inode::default());
        n
    } else if let Some(n) = g.names.get(&path) {
        if flags & ffi::SQLITE_OPEN_EXCLUSIVE != 0 && flags & ffi::SQLITE_OPEN_CREATE != 0 {
            return CANTOPEN;
        }
        *n
    } else if flags & ffi::SQLITE_OPEN_CREATE != 0 {
        if g.disk_full && pid != OBS && !g.free_run {
            g.procs[pid].faults += 1;
            g.procs[pid].faults_ever += 1;
            return CANTOPEN;
        }
        let n = g.next_ino;
        g.next_ino += 1;
        g.inodes.insert(n, Inode::default());
        g.names.insert(path.clone(), n);
        g.dir_pending.push(DirOp::Create(path.clone(), n));
        n
    } else {
        return CANTOPEN;
    };
    let h = g.next_handle;
    g.next_handle += 1;
    g.handles.insert(h, Handle { proc: pid, ino, path, delete_on_close: flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0, has_shm: false, is_main: flags & ffi::SQLITE_OPEN_MAIN_DB != 0 });
    if !out.is_null() {
        *out = flags;
    }
    let f = sf(file);
    f.handle = h;
    f.epoch = epoch;
    f.proc = pid;
    f.base.pMethods = &METHODS.0;
    OK
}

unsafe extern "C" fn x_delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, sync_dir: c_int) -> c_int {
    let n = CStr::from_ptr(name).to_string_lossy().into_owned();
    let Some((pid, path)) = split(&n) else { return IOERR_DELETE };
    let g = world();
    let epoch = g.epoch;
    let (mut g, dir) = point(g, epoch, pid, "delete", true);
    if dir != Dir::Go {
        return IOERR_DELETE;
    }
    if g.names.remove(&path).is_none() {
        return IOERR_DELETE_NOENT;
    }
    // With synchronous=FULL SQLite does not wait for the removal of a rollback journal to reach the disk
    // (that is what EXTRA adds); the simulated file system makes it durable in order, as journalling
    // file systems mounted dirsync do.
    g.sync_dir();
    g.durable_names.remove(&path);
    if sync_dir != 0 {
        g.sync_dir();
    }
    OK
}

unsafe extern "C" fn x_access(_v: *mut ffi::sqlite3_vfs, name: *const c_char, _flags: c_int, out: *mut c_int) -> c_int {
    let n = CStr::from_ptr(name).to_string_lossy().into_owned();
    *out = match split(&n) {
        Some((_, path)) => {
            let g = world();
            match g.names.get(&path) {
                // like unixAccess: an empty file does not count as existing
                Some(i) => (_flags != 0 || !g.inodes[i].data.is_empty()) as c_int,
                None => 0,
            }
        }
        None => 0,
    };
    OK
}

unsafe extern "C" fn x_full_pathname(_v: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let b = CStr::from_ptr(name).to_bytes_with_nul();
    if b.len() > n as usize {
        return CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
    OK
}

unsafe extern "C" fn x_randomness(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let b = std::slice::from_raw_parts_mut(out as *mut u8, n as usize);
    world().rng.fill(b);
    n
}

unsafe extern "C" fn x_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    // Which process sleeps? The one this SQLite thread belongs to.
    let mut g = world();
    if g.free_run {
        g.now_us += us as u64;
        return us;
    }
    if let Some(p) = HERE.with(|h| h.get()).filter(|p| *p != OBS) {
        let epoch = g.epoch;
        let until = g.now_us + us.max(1) as u64;
        g.procs[p].busy += 1;
        g.count("lock_wait");
        let _g = park_here(g, epoch, p, Status::Sleeping(until));
    }
    us
}

unsafe extern "C" fn x_current_time64(_v: *mut ffi::sqlite3_vfs, out: *mut ffi::sqlite3_int64) -> c_int {
    *out = 210866760000000 + world().wall_us() / 1000;
    OK
}
unsafe extern "C" fn x_current_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    *out = (210866760000000 + world().wall_us() / 1000) as f64 / 86400000.0;
    OK
}
unsafe extern "C" fn x_get_last_error(_v: *mut ffi::sqlite3_vfs, _n: c_int, _b: *mut c_char) -> c_int {
    0
}

unsafe extern "C" fn f_close(f: *mut ffi::sqlite3_file) -> c_int {
    let f = sf(f);
    let mut g = world();
    if g.epoch != f.epoch {
        return OK;
    }
    if let Some(h) = g.handles.remove(&f.handle) {
        if let Some(i) = g.inodes.get_mut(&h.ino) {
            i.locks.remove(&f.handle);
            for l in i.shm.locks.iter_mut() {
                l.remove(&f.handle);
            }
        }
        if h.delete_on_close && !h.path.is_empty() {
            g.names.remove(&h.path);
            g.dir_pending.push(DirOp::Unlink(h.path));
        }
    }
    OK
}

macro_rules! enter {
    ($f:expr, $what:expr, $park:expr, $rc:expr) => {{
        let f = sf($f);
        let g = world();
        let park = $park || g.park_reads;
        let (g, dir) = point(g, f.epoch, f.proc, $what, park);
        if dir != Dir::Go || !g.handles.contains_key(&f.handle) {
            return $rc;
        }
        let ino = g.handles[&f.handle].ino;
        (f, g, ino)
    }};
}

unsafe extern "C" fn f_read(f: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: ffi::sqlite3_int64) -> c_int {
    let (_f, g, ino) = enter!(f, "read", false, IOERR_READ);
    let data = &g.inodes[&ino].data;
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let off = off as usize;
    let avail = data.len().saturating_sub(off).min(n as usize);
    out[..avail].copy_from_slice(&data[off.min(data.len())..off.min(data.len()) + avail]);
    if avail < n as usize {
        out[avail..].fill(0);
        return IOERR_SHORT_READ;
    }
    OK
}

unsafe extern "C" fn f_write(f: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: ffi::sqlite3_int64) -> c_int {
    let sfr = sf(f);
    let g = world();
    let (mut g, dir) = point(g, sfr.epoch, sfr.proc, "write", true);
    let b = std::slice::from_raw_parts(buf as *const u8, n as usize);
    if dir == Dir::Stale {
        return IOERR_WRITE;
    }
    let Some(h) = g.handles.get(&sfr.handle) else { return IOERR_WRITE };
    let (ino, main) = (h.ino, h.is_main);
    if dir == Dir::Fail {
        // a failing write may have been partly done
        let full = g.disk_full || g.d.choose(2) == 1;
        let part = g.d.choose(3) as usize; // 0 nothing, 1 half, 2 all
        let len = b.len() * part / 2;
        if len > 0 && !g.disk_full {
            let node = g.inodes.get_mut(&ino).unwrap();
            put(&mut node.data, off as u64, &b[..len]);
            node.pending.push(Pend::Write(off as u64, b[..len].to_vec()));
            g.count("fault:short_write");
        }
        if full && !g.disk_full && g.d.choose(2) == 1 {
            g.disk_full = true;
            g.count("fault:disk_full_begins");
        }
        return if full { FULL } else { IOERR_WRITE };
    }
    if main && sfr.proc != OBS && !g.free_run {
        g.procs[sfr.proc].wrote_db = true;
    }
    let node = g.inodes.get_mut(&ino).unwrap();
    put(&mut node.data, off as u64, b);
    node.pending.push(Pend::Write(off as u64, b.to_vec()));
    OK
}

unsafe extern "C" fn f_truncate(f: *mut ffi::sqlite3_file, n: ffi::sqlite3_int64) -> c_int {
    let (f, mut g, ino) = enter!(f, "truncate", true, IOERR_TRUNCATE);
    if g.handles[&f.handle].is_main && f.proc != OBS && !g.free_run {
        g.procs[f.proc].wrote_db = true;
    }
    let node = g.inodes.get_mut(&ino).unwrap();
    node.data.resize(n as usize, 0);
    node.pending.push(Pend::Truncate(n as u64));
    OK
}

unsafe extern "C" fn f_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let (f, mut g, ino) = enter!(f, "sync", true, IOERR_FSYNC);
    g.make_durable(ino);
    let p = g.handles[&f.handle].path.clone();
    if p.ends_with("-journal") || p.ends_with("-wal") {
        g.sync_dir();
    }
    g.count("fsync");
    OK
}

unsafe extern "C" fn f_size(f: *mut ffi::sqlite3_file, out: *mut ffi::sqlite3_int64) -> c_int {
    let f = sf(f);
    let g = world();
    if g.epoch != f.epoch || !g.handles.contains_key(&f.handle) {
        return IOERR;
    }
    *out = g.inodes[&g.handles[&f.handle].ino].data.len() as i64;
    OK
}

unsafe extern "C" fn f_lock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    {
        let f = sf(f);
        let g = world();
        if g.epoch == f.epoch {
            if let Some(h) = g.handles.get(&f.handle) {
                if g.inodes[&h.ino].locks.get(&f.handle).copied().unwrap_or(0) >= level {
                    return OK;
                }
            }
        }
    }
    let (f, mut g, ino) = enter!(f, "lock", true, IOERR_LOCK);
    let node = g.inodes.get_mut(&ino).unwrap();
    let mine = node.locks.get(&f.handle).copied().unwrap_or(0);
    let others: Vec<i32> = node.locks.iter().filter(|(k, _)| **k != f.handle).map(|(_, v)| *v).collect();
    let max = others.iter().copied().max().unwrap_or(0);
    let (newl, rc) = match level {
        1 if max >= 3 => (mine, BUSY),
        1 => (1, OK),
        2 if max >= 2 => (mine, BUSY),
        2 => (2, OK),
        _ if max >= 2 => (mine, BUSY),
        _ if max >= 1 => (3, BUSY),
        _ => (4, OK),
    };
    if newl > 0 {
        node.locks.insert(f.handle, newl);
    }
    if rc == BUSY {
        g.count("lock_busy");
        if f.proc != OBS && !g.free_run {
            g.procs[f.proc].busy += 1;
        }
    }
    rc
}

unsafe extern "C" fn f_unlock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let f = sf(f);
    let g = world();
    let (mut g, dir) = point(g, f.epoch, f.proc, "unlock", true);
    if dir == Dir::Stale || !g.handles.contains_key(&f.handle) {
        return OK;
    }
    let ino = g.handles[&f.handle].ino;
    let node = g.inodes.get_mut(&ino).unwrap();
    if level == 0 {
        node.locks.remove(&f.handle);
    } else if node.locks.get(&f.handle).copied().unwrap_or(0) > level {
        node.locks.insert(f.handle, level);
    }
    OK
}

unsafe extern "C" fn f_check_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let f = sf(f);
    let g = world();
    *out = 0;
    if g.epoch == f.epoch {
        if let Some(h) = g.handles.get(&f.handle) {
            *out = g.inodes[&h.ino].locks.values().any(|v| *v >= 2) as c_int;
        }
    }
    OK
}

unsafe extern "C" fn f_control(_f: *mut ffi::sqlite3_file, _op: c_int, _arg: *mut c_void) -> c_int {
    NOTFOUND
}
unsafe extern "C" fn f_sector(_f: *mut ffi::sqlite3_file) -> c_int {
    4096
}
unsafe extern "C" fn f_devchar(_f: *mut ffi::sqlite3_file) -> c_int {
    0x1000 // SQLITE_IOCAP_POWERSAFE_OVERWRITE
}

unsafe extern "C" fn f_shm_map(f: *mut ffi::sqlite3_file, i: c_int, size: c_int, extend: c_int, out: *mut *mut c_void) -> c_int {
    *out = std::ptr::null_mut();
    let (f, mut g, ino) = enter!(f, "shmmap", false, IOERR_SHMOPEN);
    if !g.handles[&f.handle].has_shm {
        g.handles.get_mut(&f.handle).unwrap().has_shm = true;
        // the first user after a crash starts from scratch (unix: the DMS lock)
        if !g.handles.iter().any(|(k, h)| *k != f.handle && h.ino == ino && h.has_shm) {
            g.inodes.get_mut(&ino).unwrap().shm.regions.clear();
        }
    }
    let shm = &mut g.inodes.get_mut(&ino).unwrap().shm;
    while shm.regions.len() <= i as usize {
        if extend == 0 {
            return OK;
        }
        shm.region_size = size as usize;
        // 8-byte aligned and never freed: parked threads of dead processes may still refer to it
        let b: Box<[u64]> = vec![0u64; size as usize / 8].into_boxed_slice();
        shm.regions.push(Box::leak(b).as_mut_ptr() as *mut u8);
    }
    *out = shm.regions[i as usize] as *mut c_void;
    OK
}

unsafe extern "C" fn f_shm_lock(f: *mut ffi::sqlite3_file, off: c_int, n: c_int, flags: c_int) -> c_int {
    const UNLOCK: c_int = 1;
    const LOCK: c_int = 2;
    const SHARED: c_int = 4;
    let unlock = flags & UNLOCK != 0;
    let sfr = sf(f);
    let (mut g, ino) = if unlock {
        let g = world();
        let (g, dir) = point(g, sfr.epoch, sfr.proc, "shmunlock", true);
        if dir == Dir::Stale || !g.handles.contains_key(&sfr.handle) {
            return OK;
        }
        let i = g.handles[&sfr.handle].ino;
        (g, i)
    } else {
        let (_f, g, ino) = enter!(f, "shmlock", true, IOERR_SHMLOCK);
        (g, ino)
    };
    let shm = &mut g.inodes.get_mut(&ino).unwrap().shm;
    let me = sfr.handle;
    let slots = off as usize..(off + n) as usize;
    if unlock {
        for s in slots {
            shm.locks[s].remove(&me);
        }
        return OK;
    }
    let _ = LOCK;
    let shared = flags & SHARED != 0;
    let conflict = slots.clone().any(|s| shm.locks[s].iter().any(|(h, ex)| *h != me && (*ex || !shared)));
    if conflict {
        g.count("lock_busy");
        if sfr.proc != OBS && !g.free_run {
            g.procs[sfr.proc].busy += 1;
        }
        return BUSY;
    }
    for s in slots {
        shm.locks[s].insert(me, !shared);
    }
    OK
}

unsafe extern "C" fn f_shm_barrier(_f: *mut ffi::sqlite3_file) {}

unsafe extern "C" fn f_shm_unmap(f: *mut ffi::sqlite3_file, delete: c_int) -> c_int {
    let f = sf(f);
    let mut g = world();
    if g.epoch != f.epoch {
        return OK;
    }
    let Some(h) = g.handles.get_mut(&f.handle) else { return OK };
    h.has_shm = false;
    let ino = h.ino;
    let still = g.handles.values().any(|h| h.ino == ino && h.has_shm);
    if let Some(i) = g.inodes.get_mut(&ino) {
        for l in i.shm.locks.iter_mut() {
            l.remove(&f.handle);
        }
        // as unix does, the memory goes away with its last user
        if !still || delete != 0 {
            i.shm.regions.clear();
        }
    }
    OK
}

struct Methods(ffi::sqlite3_io_methods);
unsafe impl Sync for Methods {}
static METHODS: Methods = Methods(ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(f_close),
    xRead: Some(f_read),
    xWrite: Some(f_write),
    xTruncate: Some(f_truncate),
    xSync: Some(f_sync),
    xFileSize: Some(f_size),
    xLock: Some(f_lock),
    xUnlock: Some(f_unlock),
    xCheckReservedLock: Some(f_check_reserved),
    xFileControl: Some(f_control),
    xSectorSize: Some(f_sector),
    xDeviceCharacteristics: Some(f_devchar),
    xShmMap: Some(f_shm_map),
    xShmLock: Some(f_shm_lock),
    xShmBarrier: Some(f_shm_barrier),
    xShmUnmap: Some(f_shm_unmap),
    xFetch: None,
    xUnfetch: None,
});

static ONCE: Once = Once::new();

/// Every connection reports the statements it starts.
unsafe extern "C" fn on_open(db: *mut ffi::sqlite3, _e: *mut *const c_char, _t: *const ffi::sqlite3_api_routines) -> c_int {
    let pid = HERE.with(|h| h.get()).unwrap_or(OBS);
    if pid != OBS {
        ffi::sqlite3_trace_v2(db, ffi::SQLITE_TRACE_STMT as u32, Some(on_stmt), pid as *mut c_void);
    }
    OK
}

unsafe extern "C" fn on_stmt(_m: u32, ctx: *mut c_void, stmt: *mut c_void, text: *mut c_void) -> c_int {
    let pid = ctx as usize;
    let text = CStr::from_ptr(text as *const c_char).to_string_lossy();
    if text.starts_with("--") {
        return 0; // a trigger
    }
    let st = stmt as *mut ffi::sqlite3_stmt;
    let mut g = world();
    if pid >= g.procs.len() || g.free_run {
        return 0;
    }
    let faults = g.procs[pid].faults_ever;
    let auto = ffi::sqlite3_get_autocommit(ffi::sqlite3_db_handle(st)) != 0;
    let first = text.trim_start().split(|c: char| !c.is_alphabetic()).next().unwrap_or("").to_uppercase();
    let writes = matches!(first.as_str(), "INSERT" | "UPDATE" | "DELETE" | "WITH") && ffi::sqlite3_stmt_readonly(st) == 0;
    if writes && auto && g.procs[pid].last_stmt.0 == st as usize && !g.procs[pid].last_stmt.2 && g.procs[pid].last_stmt.1 < faults {
        g.count("statement_stepped_again_after_error");
        g.procs[pid].tainted = Some("restep");
    }
    g.procs[pid].last_stmt = (st as usize, faults, auto);
    // seafowl itself never nests transactions
    if first == "SAVEPOINT" && g.procs[pid].tainted.is_none() {
        g.count("connection_kept_after_failed_commit");
        g.procs[pid].tainted = Some("wedge");
    }
    if g.procs[pid].tainted.is_some() && !g.ghosts {
        // The scheduler turns this into a crash of the process, before the statement has any effect.
        let s = format!("{:>6} p{pid} connection is in a state that only the sqlx driver's handling of the earlier error explains ({:?})", g.steps, g.procs[pid].tainted);
        g.logf(s);
        let epoch = g.epoch;
        drop(park_here(g, epoch, pid, Status::Parked("taint")));
        return 0;
    }
    if std::env::var("SIM_TRACE").is_ok() {
        let s = format!("{:>6} p{pid} SQL{} {}", g.steps, if auto { "" } else { " (tx)" }, text.split_whitespace().take(9).collect::<Vec<_>>().join(" "));
        g.logf(s);
    }
    0
}

pub fn install() {
    ONCE.call_once(|| unsafe {
        let vfs = Box::leak(Box::new(ffi::sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<SimFile>() as c_int,
            mxPathname: 512,
            pNext: std::ptr::null_mut(),
            zName: c"sim".as_ptr(),
            pAppData: std::ptr::null_mut(),
            xOpen: Some(x_open),
            xDelete: Some(x_delete),
            xAccess: Some(x_access),
            xFullPathname: Some(x_full_pathname),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(x_randomness),
            xSleep: Some(x_sleep),
            xCurrentTime: Some(x_current_time),
            xGetLastError: Some(x_get_last_error),
            xCurrentTimeInt64: Some(x_current_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        }));
        assert_eq!(ffi::sqlite3_vfs_register(vfs, 1), OK);
        ffi::sqlite3_auto_extension(Some(on_open));
    });
}

/// SQLite keeps one random generator per OS process; start it afresh for every run.
pub fn reset_randomness() {
    unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) }
}

/// Raw access to the simulated database file, never parked and never failed.
pub struct Raw(*mut ffi::sqlite3);
impl Raw {
    pub fn open() -> Option<Raw> {
        unsafe {
            let mut db = std::ptr::null_mut();
            let rc = ffi::sqlite3_open_v2(c"/sim/obs/cat.db".as_ptr(), &mut db, ffi::SQLITE_OPEN_READWRITE | ffi::SQLITE_OPEN_NOMUTEX, std::ptr::null());
            if rc != OK {
                ffi::sqlite3_close(db);
                return None;
            }
            Some(Raw(db))
        }
    }
    pub fn query(&self, sql: &str) -> Result<Vec<Vec<String>>, String> {
        unsafe {
            let c = std::ffi::CString::new(sql).unwrap();
            let mut st = std::ptr::null_mut();
            let mut tail = c.as_ptr();
            let mut out = vec![];
            loop {
                if *tail == 0 {
                    return Ok(out);
                }
                let rc = ffi::sqlite3_prepare_v2(self.0, tail, -1, &mut st, &mut tail);
                if rc != OK {
                    return Err(CStr::from_ptr(ffi::sqlite3_errmsg(self.0)).to_string_lossy().into_owned());
                }
                if st.is_null() {
                    continue;
                }
                loop {
                    let rc = ffi::sqlite3_step(st);
                    if rc == 101 {
                        break;
                    }
                    if rc != 100 {
                        let e = CStr::from_ptr(ffi::sqlite3_errmsg(self.0)).to_string_lossy().into_owned();
                        ffi::sqlite3_finalize(st);
                        return Err(e);
                    }
                    let n = ffi::sqlite3_column_count(st);
                    let mut row = vec![];
                    for i in 0..n {
                        let t = ffi::sqlite3_column_type(st, i);
                        row.push(if t == ffi::SQLITE_BLOB {
                            let p = ffi::sqlite3_column_blob(st, i) as *const u8;
                            let l = ffi::sqlite3_column_bytes(st, i) as usize;
                            if p.is_null() { String::new() } else { std::slice::from_raw_parts(p, l).iter().map(|b| format!("{b:02x}")).collect() }
                        } else {
                            let p = ffi::sqlite3_column_text(st, i);
                            if p.is_null() { "NULL".into() } else { CStr::from_ptr(p as *const c_char).to_string_lossy().into_owned() }
                        });
                    }
                    out.push(row);
                }
                ffi::sqlite3_finalize(st);
            }
        }
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        unsafe {
            ffi::sqlite3_close(self.0);
        }
    }
}
