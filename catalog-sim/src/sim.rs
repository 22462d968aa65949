//! Plans, simulated server processes, the scheduler, and the oracles.

use crate::model::*;
use crate::vfs;
use crate::world::*;
use arrow_schema::{DataType, Field, Schema, TimeUnit};
use seafowl::repository::interface::{DroppedTableDeletionStatus, Error, Repository};
use seafowl::repository::sqlite::SqliteRepository;
use seafowl::wasm_udf::data_types::*;
use serde::{Deserialize, Serialize};
use simcore::{Decider, Fnv, Meta, Rng, RunResult, Sim, Violation};
use sqlx::sqlite::SqliteJournalMode;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::str::FromStr;
use std::sync::{Mutex, OnceLock};
use uuid::Uuid;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum POp {
    CreateDb(u8),
    GetDb(u8),
    CreateColl(u8, u8),
    GetColl(u8, u8),
    /// database, collection, table, schema
    CreateTable(u8, u8, u8, u8),
    GetTable(u8, u8, u8),
    List(u8),
    /// table slot, version
    NewVersion(u8, i64),
    DeleteOld(u8),
    AllVersions(u8, Vec<u8>),
    /// table slot, new name, move to (database, collection)
    Rename(u8, u8, Option<(u8, u8)>),
    CreateFn(u8, u8, bool, u8),
    ListFn(u8),
    DropFn(u8, Vec<u8>),
    DeleteTable(u8),
    DeleteColl(u8, u8),
    DeleteDb(u8),
    ListDropped(Option<u8>),
    UpdDropped(u8, u8),
    DelDropped(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Client {
    pub read_only: bool,
    /// each step is one operation, or several issued at once by tasks of the same server
    pub steps: Vec<Vec<POp>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    /// 0 WAL, 1 DELETE, 2 TRUNCATE, 3 PERSIST
    pub journal: u8,
    /// 0: no database yet; 1..=3: written by that many migrations; 4: current schema
    pub base: u8,
    /// columns in the old JSON format in a base of the current schema
    pub old_json: bool,
    pub prelude: Vec<POp>,
    pub dropped: Vec<(u8, u8, u8, u8)>,
    pub clients: Vec<Client>,
    pub stick: u32,
    pub crash_permille: u32,
    pub crashes: u32,
    pub power_percent: u32,
    pub jump_permille: u32,
    pub fault_rates: Vec<(String, u32)>,
    pub fault_budget: u32,
    pub park_reads: bool,
    pub observe: bool,
    /// extra start-ups at the end
    pub restarts: u8,
    /// let the SQL driver's known misbehaviour after an I/O error run its course
    #[serde(default)]
    pub ghosts: bool,
}

fn db_name(n: u8) -> String { format!("db{n}") }
fn coll_name(n: u8) -> String { format!("coll{n}") }
// one name is a prefix / case variant of another
fn table_name(n: u8) -> String { ["tab", "tab1", "tab10", "TAB", "t b'\"x"][n as usize % 5].to_string() }
fn fn_name(n: u8) -> String { ["f", "f1", "g", "F"][n as usize % 4].to_string() }
fn drop_uuid(n: u8) -> Uuid { Uuid::from_u128(0xd00d_0000_0000_0000_0000_0000_0000_0000 + n as u128) }

pub fn schema(n: u8) -> Schema {
    let f = |n: &str, t: DataType| Field::new(n, t, true);
    match n {
        0 => Schema::empty(),
        1 => Schema::new(vec![f("a", DataType::Int32)]),
        2 => Schema::new(vec![f("b", DataType::Utf8), f("a", DataType::Float64), Field::new("c", DataType::Date32, false)]),
        3 => Schema::new((0..30).map(|i| f(&format!("col{i}"), if i % 2 == 0 { DataType::Int64 } else { DataType::Timestamp(TimeUnit::Microsecond, Some("UTC".into())) })).collect::<Vec<_>>()),
        4 => Schema::new(vec![f("dup", DataType::Int32), f("x", DataType::Int32), f("dup", DataType::Utf8)]),
        5 => Schema::new(vec![f("l", DataType::new_list(DataType::Decimal128(20, 2), true)), f("s", DataType::Struct(vec![f("i", DataType::Boolean)].into()))]),
        6 => Schema::new((0..11_000).map(|i| f(&format!("c{i}"), DataType::Int8)).collect::<Vec<_>>()),
        _ => Schema::new((0..400).map(|i| f(&format!("wide_column_with_a_long_name_{i}"), DataType::Int16)).collect::<Vec<_>>()),
    }
}
fn field_repr(f: &Field) -> String { format!("{:?} nullable={}", f.data_type(), f.is_nullable()) }
fn col_repr(name: &str, ty: &str) -> String {
    match serde_json::from_str::<Field>(ty) {
        Ok(f) if f.name() == name => field_repr(&f),
        Ok(f) => format!("field named {:?}: {}", f.name(), field_repr(&f)),
        Err(_) => format!("undecodable {ty}"),
    }
}
fn cols_of(s: &Schema) -> Cols { s.fields().iter().map(|f| (f.name().clone(), field_repr(f))).collect() }

pub fn details(n: u8) -> CreateFunctionDetails {
    use CreateFunctionDataType::*;
    let (l, i, r, v) = match n % 5 {
        0 => (CreateFunctionLanguage::Wasm, vec![BIGINT, BIGINT], BIGINT, CreateFunctionVolatility::Immutable),
        1 => (CreateFunctionLanguage::WasmMessagePack, vec![TEXT, DATE, TIMESTAMP], VARCHAR, CreateFunctionVolatility::Volatile),
        2 => (CreateFunctionLanguage::WasmMessagePack, vec![], BOOLEAN, CreateFunctionVolatility::Stable),
        3 => (CreateFunctionLanguage::Wasm, vec![I32, F64, REAL, FLOAT, INT, SMALLINT, CHAR], DOUBLE, CreateFunctionVolatility::Volatile),
        _ => (CreateFunctionLanguage::Wasm, vec![DOUBLE], F32, CreateFunctionVolatility::Immutable),
    };
    CreateFunctionDetails {
        entrypoint: format!("entry {n} '\""),
        language: l,
        input_types: i,
        return_type: r,
        data: if n >= 5 { "A".repeat(9000 + n as usize) } else { format!("data{n}") },
        volatility: v,
    }
}

pub struct Known {
    dbs: HashMap<u8, i64>,
    colls: HashMap<(u8, u8), i64>,
    tables: HashMap<u8, (i64, String)>,
    uuids: BTreeMap<String, Cols>,
    next_uuid: u128,
}

struct Shared {
    plan: Plan,
    known: Known,
    events: Vec<Event>,
    open: HashMap<usize, Vec<usize>>, // proc -> indices of in-flight events
    next: Vec<usize>,                 // per client: next step
    seq: u64,
    phase: u8,
    final_left: Vec<VecDeque<Vec<POp>>>,
    startup_fail: Vec<u32>,
    startup_ok: Vec<bool>,
    violation: Option<Violation>,
    op_done: bool,
    probe_fail: Vec<u32>,
}

static SHARED: OnceLock<Mutex<Option<Shared>>> = OnceLock::new();
fn shared() -> &'static Mutex<Option<Shared>> { SHARED.get_or_init(|| Mutex::new(None)) }
fn with<R>(f: impl FnOnce(&mut Shared) -> R) -> R {
    f(shared().lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap())
}

const BOGUS: i64 = 900_000;

impl Shared {
    fn concrete(&mut self, op: &POp) -> COp {
        let k = &mut self.known;
        let db = |k: &Known, d: u8| k.dbs.get(&d).copied().unwrap_or(BOGUS + d as i64);
        let coll = |k: &Known, d: u8, c: u8| k.colls.get(&(d, c)).copied().unwrap_or(BOGUS + c as i64);
        let tab = |k: &Known, t: u8| k.tables.get(&t).cloned().unwrap_or((BOGUS + t as i64, Uuid::from_u128(0xbad).to_string()));
        match op {
            POp::CreateDb(d) => COp::CreateDb(db_name(*d)),
            POp::GetDb(d) => COp::GetDb(db_name(*d)),
            POp::CreateColl(d, c) => COp::CreateColl(db(k, *d), coll_name(*c)),
            POp::GetColl(d, c) => COp::GetColl(db_name(*d), coll_name(*c)),
            POp::CreateTable(d, c, t, s) => {
                k.next_uuid += 1;
                let u = Uuid::from_u128(0xaaaa_0000 + k.next_uuid).to_string();
                let cols = cols_of(&schema(*s));
                let mut sorted = cols.clone();
                sorted.sort();
                k.uuids.insert(u.clone(), sorted);
                COp::CreateTable(coll(k, *d, *c), table_name(*t), cols, u)
            }
            POp::GetTable(d, c, t) => COp::GetTable(db_name(*d), coll_name(*c), table_name(*t)),
            POp::List(d) => COp::List(db_name(*d)),
            POp::NewVersion(t, v) => COp::NewVersion(tab(k, *t).1, *v),
            POp::DeleteOld(t) => COp::DeleteOld(tab(k, *t).0),
            POp::AllVersions(d, ts) => COp::AllVersions(db_name(*d), if ts.is_empty() { None } else { Some(ts.iter().filter(|t| **t != 99).map(|t| table_name(*t)).collect()) }),
            POp::Rename(t, n, m) => COp::Rename(tab(k, *t).0, table_name(*n), m.map(|(d, c)| coll(k, d, c))),
            POp::CreateFn(d, f, r, n) => COp::CreateFn(db(k, *d), fn_name(*f), *r, format!("{:?}", details(*n))),
            POp::ListFn(d) => COp::ListFn(db(k, *d)),
            POp::DropFn(d, fs) => COp::DropFn(db(k, *d), fs.iter().map(|f| fn_name(*f)).collect()),
            POp::DeleteTable(t) => COp::DeleteTable(tab(k, *t).0),
            POp::DeleteColl(d, c) => COp::DeleteColl(coll(k, *d, *c)),
            POp::DeleteDb(d) => COp::DeleteDb(db(k, *d)),
            POp::ListDropped(d) => COp::ListDropped(d.map(db_name)),
            POp::UpdDropped(u, s) => COp::UpdDropped(drop_uuid(*u).to_string(), ["PENDING", "RETRY", "FAILED"][*s as usize % 3].to_string()),
            POp::DelDropped(u) => COp::DelDropped(drop_uuid(*u).to_string()),
        }
    }
    fn learn(&mut self, op: &POp, cop: &COp, res: &Res) {
        let k = &mut self.known;
        match (op, res) {
            (POp::CreateDb(d), Res::Id(i)) | (POp::GetDb(d), Res::Db(i, _)) => {
                k.dbs.insert(*d, *i);
            }
            (POp::CreateColl(d, c), Res::Id(i)) | (POp::GetColl(d, c), Res::Coll(i, _, _)) => {
                k.colls.insert((*d, *c), *i);
            }
            (POp::CreateTable(_, _, t, _), Res::Ids(i, _)) => {
                if let COp::CreateTable(_, _, _, u) = cop {
                    k.tables.insert(*t, (*i, u.clone()));
                }
            }
            _ => {}
        }
    }
}

fn err_class(op: &COp, e: Error) -> Res {
    Res::Err(match e {
        Error::UniqueConstraintViolation(_) => Err::Unique,
        Error::FKConstraintViolation(_) => Err::Fk,
        Error::SqlxError(sqlx::Error::RowNotFound) => Err::NotFound,
        Error::SqlxError(sqlx::Error::ColumnDecode { .. }) if matches!(op, COp::NewVersion(..)) => Err::NotFound,
        Error::SqlxError(sqlx::Error::Database(d)) => {
            let code = d.code().and_then(|c| c.parse::<i64>().ok()).unwrap_or(0);
            if code & 0xff == 5 || code & 0xff == 6 { Err::Busy } else { Err::Other(format!("{code}: {}", d.message())) }
        }
        e => Err::Other(e.to_string()),
    })
}

async fn do_op(repo: &SqliteRepository, pop: &POp, op: &COp) -> Res {
    macro_rules! r {
        ($e:expr, $f:expr) => {
            match $e.await {
                Ok(v) => {
                    #[allow(clippy::redundant_closure_call)]
                    $f(v)
                }
                Err(e) => err_class(op, e),
            }
        };
    }
    match op {
        COp::CreateDb(n) => r!(repo.create_database(n), Res::Id),
        COp::GetDb(n) => r!(repo.get_database(n), |d: seafowl::repository::interface::DatabaseRecord| Res::Db(d.id, d.name)),
        COp::CreateColl(d, n) => r!(repo.create_collection(*d, n), Res::Id),
        COp::GetColl(d, n) => r!(repo.get_collection(d, n), |c: seafowl::repository::interface::CollectionRecord| Res::Coll(c.id, c.database_id, c.name)),
        COp::CreateTable(c, n, _, u) => {
            let POp::CreateTable(_, _, _, s) = pop else { unreachable!() };
            let sch = schema(*s);
            r!(repo.create_table(*c, n, &sch, Uuid::parse_str(u).unwrap()), |(a, b)| Res::Ids(a, b))
        }
        COp::GetTable(d, c, t) => r!(repo.get_table(d, c, t), |t: seafowl::repository::interface::TableRecord| Res::Table(t.id, t.collection_id, t.name)),
        COp::List(d) => r!(repo.list_collections(d), |v: Vec<seafowl::repository::interface::AllDatabaseColumnsResult>| {
            let mut o: Vec<_> = v.into_iter().map(|x| {
                let ty = match (&x.column_name, &x.column_type) {
                    (Some(n), Some(t)) => Some(col_repr(n, t)),
                    (_, t) => t.clone(),
                };
                let coll = if x.database_name == *d { x.collection_name } else { format!("{}!{}", x.database_name, x.collection_name) };
                (coll, x.table_name, x.table_id, x.table_uuid.map(|u| u.to_string()), x.table_version_id, x.column_name, ty)
            }).collect();
            o.sort();
            Res::List(o)
        }),
        COp::NewVersion(u, v) => r!(repo.create_new_version(Uuid::parse_str(u).unwrap(), *v), Res::Id),
        COp::DeleteOld(t) => r!(repo.delete_old_versions(*t), Res::Count),
        COp::AllVersions(d, n) => r!(repo.get_all_versions(d, n.clone()), |v: Vec<seafowl::repository::interface::TableVersionsResult>| {
            let mut o: Vec<_> = v.into_iter().map(|x| {
                let coll = if x.database_name == *d { x.collection_name } else { format!("{}!{}", x.database_name, x.collection_name) };
                (coll, x.table_name, x.table_version_id, x.version, x.creation_time)
            }).collect();
            o.sort();
            Res::Versions(o)
        }),
        COp::Rename(t, n, c) => r!(repo.rename_table(*t, n, *c), |_| Res::Unit),
        COp::CreateFn(d, n, rep, _) => {
            let POp::CreateFn(_, _, _, k) = pop else { unreachable!() };
            let det = details(*k);
            r!(repo.create_function(*d, n, *rep, &det), Res::Id)
        }
        COp::ListFn(d) => r!(repo.get_all_functions_in_database(*d), |v: Vec<seafowl::repository::interface::AllDatabaseFunctionsResult>| {
            let mut o: Vec<_> = v.into_iter().map(|x| {
                // decoded the way the metastore does it
                let det = (|| {
                    Some(CreateFunctionDetails {
                        entrypoint: x.entrypoint.clone(),
                        language: CreateFunctionLanguage::from_str(&x.language).ok()?,
                        input_types: serde_json::from_str::<Vec<CreateFunctionDataType>>(&x.input_types).ok()?,
                        return_type: CreateFunctionDataType::from_str(&x.return_type.to_ascii_uppercase()).ok()?,
                        data: x.data.clone(),
                        volatility: CreateFunctionVolatility::from_str(&x.volatility).ok()?,
                    })
                })();
                (x.name.clone(), x.id, match det { Some(d) => format!("{d:?}"), None => format!("undecodable {} {} {} {}", x.language, x.input_types, x.return_type, x.volatility) })
            }).collect();
            o.sort();
            Res::Fns(o)
        }),
        COp::DropFn(d, n) => r!(repo.drop_function(*d, n), |_| Res::Unit),
        COp::DeleteTable(t) => r!(repo.delete_table(*t), |_| Res::Unit),
        COp::DeleteColl(c) => r!(repo.delete_collection(*c), |_| Res::Unit),
        COp::DeleteDb(d) => r!(repo.delete_database(*d), |_| Res::Unit),
        COp::ListDropped(d) => r!(repo.get_dropped_tables(d.clone()), |v: Vec<seafowl::repository::interface::DroppedTablesResult>| {
            let mut o: Vec<_> = v.into_iter().map(|x| (x.database_name, x.collection_name, x.table_name, x.uuid.to_string(), x.deletion_status.to_string(), x.drop_time)).collect();
            o.sort();
            Res::Dropped(o)
        }),
        COp::UpdDropped(u, s) => r!(repo.update_dropped_table(Uuid::parse_str(u).unwrap(), DroppedTableDeletionStatus::from_str(s).unwrap()), |_| Res::Unit),
        COp::DelDropped(u) => r!(repo.delete_dropped_table(Uuid::parse_str(u).unwrap()), |_| Res::Unit),
        COp::Open => Res::Unit,
    }
}

fn is_read(op: &COp) -> bool {
    matches!(op, COp::GetDb(_) | COp::GetColl(..) | COp::GetTable(..) | COp::List(_) | COp::AllVersions(..) | COp::ListFn(_) | COp::ListDropped(_) | COp::Open)
}

fn begin(proc: usize, client: usize, ro: bool, op: &COp) -> usize {
    let (wall, steps) = {
        let mut g = world();
        if proc != OBS {
            g.procs[proc].faults = 0;
            g.procs[proc].busy = 0;
        }
        let s = format!("{:>6} p{proc} c{client} > {}", g.steps, brief(&format!("{op:?}")));
        g.logf(s);
        (g.wall_us().div_euclid(1_000_000), g.steps)
    };
    let _ = steps;
    with(|s| {
        s.seq += 1;
        let i = s.events.len();
        s.events.push(Event { op: op.clone(), res: Res::Crashed, start: s.seq, end: u64::MAX, faults: 0, busy: 0, may_fail: ro && !is_read(op), wall_lo: wall, wall_hi: wall, who: client });
        s.open.entry(proc).or_default().push(i);
        i
    })
}

fn end(proc: usize, client: usize, i: usize, res: Res) {
    let (wall, faults, busy, crashed) = {
        let mut g = world();
        let s = format!("{:>6} p{proc} c{client} < {}", g.steps, brief(&format!("{res:?}")));
        g.logf(s);
        g.path_hash = 0;
        let (f, mut b) = if proc == OBS { (0, 0) } else { (g.procs[proc].faults, g.procs[proc].busy) };
        if g.procs.iter().filter(|p| !matches!(p.status, Status::Dead)).count() > 1 {
            b += 1; // contention need not show as a refused lock (stale WAL snapshot)
        }
        let crashed = g.stats.contains_key("fault:kill") || g.stats.contains_key("fault:power_failure");
        (g.wall_us().div_euclid(1_000_000), f, b, crashed)
    };
    with(|s| {
        s.seq += 1;
        let seq = s.seq;
        // A commit whose fsync of the write-ahead log failed is reported as failed and rolled back, but its
        // frames are in the log: it may still happen when the log is recovered.
        let late = s.plan.journal == 0 && matches!(&res, Res::Err(Err::Other(m)) if m.contains("1034"));
        if let (Some(o), false) = (s.open.get_mut(&proc), late) {
            o.retain(|x| *x != i);
        }
        let e = &mut s.events[i];
        if ro_blocked(&res) && crashed && s.plan.clients.get(client).is_some_and(|c| c.read_only) {
            e.may_fail = true; // only a process that may write can roll back what the crash left behind
        }
        e.res = res;
        e.end = if late { u64::MAX } else { seq };
        e.faults = faults;
        e.busy = busy;
        e.wall_lo = e.wall_lo.min(wall);
        e.wall_hi = e.wall_hi.max(wall);
        s.op_done = true;
    })
}

/// A read-only connection that finds the journal of a crashed writer says so.
fn ro_blocked(r: &Res) -> bool {
    matches!(r, Res::Err(Err::Other(m)) if m.contains("readonly") || m.contains("unable to open"))
}

fn brief(s: &str) -> String {
    if s.len() > 300 { format!("{}… ({} chars)", s.chars().take(300).collect::<String>(), s.len()) } else { s.to_string() }
}

fn journal(n: u8) -> SqliteJournalMode {
    match n {
        0 => SqliteJournalMode::Wal,
        1 => SqliteJournalMode::Delete,
        2 => SqliteJournalMode::Truncate,
        _ => SqliteJournalMode::Persist,
    }
}

async fn settle(repo: &SqliteRepository, who: Option<(usize, u64)>) {
    // the connection goes back to the pool (and rolls back, if need be) in the background
    loop {
        let p = &repo.executor;
        if p.num_idle() as u32 == p.size() {
            return;
        }
        if let Some((pid, epoch)) = who {
            let gone = {
                let g = world();
                g.epoch != epoch || g.procs[pid].status == Status::Dead
            };
            if gone {
                std::future::pending::<()>().await;
            }
        }
        tokio::time::sleep(std::time::Duration::from_micros(20)).await;
    }
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

/// The next step of a client, or None when it must wait.
fn next_step(client: usize) -> Option<Vec<POp>> {
    with(|s| {
        let n = s.next[client];
        if let Some(st) = s.plan.clients[client].steps.get(n).cloned() {
            s.next[client] += 1;
            return Some(st);
        }
        if s.phase == 1 {
            return s.final_left[client].pop_front();
        }
        None
    })
}

fn process(pid: usize, epoch: u64, client: usize, ro: bool, jm: u8) {
    {
        let g = world();
        drop(park_here(g, epoch, pid, Status::Parked("start")));
    }
    let rt = rt();
    rt.block_on(Tracked::new(async {
        let dsn = format!("sqlite:///sim/p{pid}/cat.db");
        let ev = begin(pid, client, ro, &COp::Open);
        let opened = {
            use futures::FutureExt;
            let f = async {
                if ro {
                    SqliteRepository::try_new_read_only(dsn, journal(jm)).await
                } else {
                    SqliteRepository::try_new(dsn, journal(jm)).await
                }
            };
            match std::panic::AssertUnwindSafe(f).catch_unwind().await {
                Ok(Ok(r)) => Ok(r),
                Ok(Err(e)) => Err((e.to_string(), false)),
                Err(p) => Err((p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(), true)),
            }
        };
        let repo = match opened {
            Ok(r) => r,
            Err((msg, panicked)) => {
                let busy = msg.contains("database is locked") || msg.contains("Database is locked");
                let e = if busy { Err::Busy } else { Err::Other(format!("start-up failed{}: {msg}", if panicked { " (panic)" } else { "" })) };
                end(pid, client, ev, Res::Err(e));
                with(|s| {
                    // competing start-ups are not failures to start
                    if !s.events[ev].may_fail && (s.events[ev].busy == 0 || s.startup_fail[client] >= 100) {
                        s.startup_fail[client] += 100
                    }
                    s.startup_fail[client] += 1;
                });
                let mut g = world();
                if g.epoch == epoch {
                    // what is left of the process goes away with it
                    g.kill(pid);
                    *g.stats.entry("fault:kill".into()).or_default() -= 1;
                    g.count("startup_failed");
                    if g.running == Some(pid) {
                        g.running = None;
                        g.sched_cv.notify_all();
                    }
                    drop(g);
                }
                loop {
                    std::thread::park();
                }
            }
        };
        settle(&repo, Some((pid, epoch))).await;
        end(pid, client, ev, Res::Unit);
        with(|s| {
            s.startup_ok[client] = true;
            s.startup_fail[client] = 0
        });
        loop {
            {
                let g = world();
                let g = park_here(g, epoch, pid, Status::Parked("gate"));
                if g.free_run {
                    break;
                }
            }
            let Some(step) = next_step(client) else {
                let g = world();
                let g = park_here(g, epoch, pid, Status::Parked("idle"));
                if g.free_run {
                    break;
                }
                continue;
            };
            let futs: Vec<_> = step
                .iter()
                .map(|pop| {
                    let repo = &repo;
                    async move {
                        let cop = with(|s| s.concrete(pop));
                        let ev = begin(pid, client, ro, &cop);
                        tokio::task::yield_now().await; // all of a burst have begun before any may end
                        let res = do_op(repo, pop, &cop).await;
                        with(|s| s.learn(pop, &cop, &res));
                        end(pid, client, ev, res);
                    }
                })
                .collect();
            futures::future::join_all(futs).await;
            settle(&repo, Some((pid, epoch))).await;
        }
        repo.executor.close().await;
    }, pid, epoch));
    drop(rt);
    let mut g = world();
    if g.epoch == epoch {
        g.procs[pid].status = Status::Finished;
        g.sched_cv.notify_all();
    }
}

// ---------------------------------------------------------------- base images

static IMAGES: Mutex<BTreeMap<(u8, u8), Vec<u8>>> = Mutex::new(BTreeMap::new());

/// A closed database file with the first `base` migrations applied (by the real migrator).
fn image(base: u8, jm: u8) -> Vec<u8> {
    if let Some(i) = IMAGES.lock().unwrap().get(&(base, jm)) {
        return i.clone();
    }
    {
        let mut g = world();
        fresh_world(&mut g, Decider::seeded(1), 1);
        g.free_run = true;
        g.procs.clear();
        g.new_proc(0, false);
    }
    vfs::reset_randomness();
    rt().block_on(async {
        if base >= 4 {
            let r = SqliteRepository::try_new("sqlite:///sim/p0/cat.db".into(), journal(jm)).await.expect("base image");
            r.executor.close().await;
        } else {
            use sqlx::migrate::Migrator;
            let all = SqliteRepository::MIGRATOR;
            let ups: Vec<_> = all.iter().filter(|m| m.migration_type.is_up_migration()).take(base as usize).cloned().collect();
            let m = Migrator { migrations: std::borrow::Cow::Owned(ups), ignore_missing: false, locking: true };
            let o = sqlx::sqlite::SqliteConnectOptions::from_str("sqlite:///sim/p0/cat.db").unwrap().create_if_missing(true).journal_mode(journal(jm));
            let p = sqlx::sqlite::SqlitePoolOptions::new().max_connections(1).connect_with(o).await.unwrap();
            m.run(&p).await.unwrap();
            p.close().await;
        }
    });
    let g = world();
    let ino = g.names["cat.db"];
    let img = g.inodes[&ino].data.clone();
    drop(g);
    IMAGES.lock().unwrap().insert((base, jm), img.clone());
    img
}

fn fresh_world(g: &mut World, d: Decider, seed: u64) {
    let epoch = g.epoch + 1;
    let old: Vec<_> = g.procs.iter().map(|p| p.cv.clone()).collect();
    *g = World::new(d, seed);
    g.epoch = epoch;
    for cv in old {
        cv.notify_all();
    }
}

fn install_image(g: &mut World, img: Vec<u8>) {
    let n = g.next_ino;
    g.next_ino += 1;
    g.inodes.insert(n, Inode { data: img.clone(), durable: img, created_durably: true, ..Default::default() });
    g.names.insert("cat.db".into(), n);
    g.durable_names.insert("cat.db".into(), n);
}

/// Rows as an older release wrote them; returns what must be there after the upgrade.
fn legacy_rows(base: u8, old_json: bool, seed: u64) -> State {
    let raw = vfs::Raw::open().expect("raw open");
    let mut st = State::default();
    let mut r = Rng::new(seed);
    let q = |s: String| raw.query(&s).unwrap_or_else(|e| panic!("{s}: {e}"));
    let types = [DataType::Int32, DataType::Utf8, DataType::Boolean, DataType::Date32, DataType::Float64, DataType::Int64, DataType::Timestamp(TimeUnit::Microsecond, None)];
    q("BEGIN".into());
    let (mut cid, mut tid, mut vid) = (0i64, 0i64, 0i64);
    for d in 1..=r.range(1, 2) as i64 {
        q(format!("INSERT INTO database(id, name) VALUES ({d}, '{}')", db_name(d as u8 - 1)));
        st.dbs.insert(d, db_name(d as u8 - 1));
        for c in 0..r.range(0, 2) {
            cid += 1;
            q(format!("INSERT INTO collection(id, database_id, name) VALUES ({cid}, {d}, '{}')", coll_name(c as u8)));
            st.colls.insert(cid, (d, coll_name(c as u8)));
            for t in 0..r.range(0, 2) {
                tid += 1;
                let name = table_name(t as u8);
                let uuid = if base >= 3 { Uuid::from_u128(0x1e6a_0000 + tid as u128) } else { Uuid::nil() };
                if base >= 3 {
                    q(format!("INSERT INTO \"table\"(id, collection_id, name, uuid) VALUES ({tid}, {cid}, '{name}', x'{}')", uuid.simple()));
                } else {
                    q(format!("INSERT INTO \"table\"(id, collection_id, name) VALUES ({tid}, {cid}, '{name}')"));
                }
                st.tables.insert(tid, (cid, name, uuid.to_string()));
                let ncols = r.range(0, 4);
                let cols: Vec<(String, DataType)> = (0..ncols).map(|i| (format!("c{i}"), r.pick(&types).clone())).collect();
                for v in 0..r.range(1, 2) as i64 {
                    vid += 1;
                    let at = 1_600_000_000 + vid;
                    if base >= 3 {
                        q(format!("INSERT INTO table_version(id, table_id, creation_time, version) VALUES ({vid}, {tid}, {at}, {v})"));
                    } else {
                        q(format!("INSERT INTO table_version(id, table_id, creation_time) VALUES ({vid}, {tid}, {at})"));
                    }
                    let mut out = vec![];
                    for (n, ty) in &cols {
                        let f = Field::new(n, ty.clone(), true);
                        let js = match base {
                            1 => arrow_integration_test::data_type_to_json(ty).to_string(),
                            4 if !old_json => serde_json::to_string(&f).unwrap(),
                            _ => arrow_integration_test::field_to_json(&f).to_string(),
                        };
                        q(format!("INSERT INTO table_column(table_version_id, name, type) VALUES ({vid}, '{n}', '{js}')"));
                        out.push((n.clone(), field_repr(&f)));
                    }
                    out.sort();
                    st.vers.insert(vid, Ver { table: tid, version: if base >= 3 { v } else { -1 }, lo: at, hi: at, cols: out });
                    if base <= 2 && r.chance(500) {
                        q(format!("INSERT INTO physical_partition(id, row_count, object_storage_id) VALUES ({vid}, 5, 'x{vid}')"));
                        q(format!("INSERT INTO table_partition(table_version_id, physical_partition_id) VALUES ({vid}, {vid})"));
                    }
                }
            }
        }
        for f in 0..r.range(0, 2) {
            let det = details(f as u8);
            let id = d * 10 + f as i64;
            q(format!("INSERT INTO \"function\"(id, database_id, name, entrypoint, language, input_types, return_type, data, volatility) VALUES ({id}, {d}, '{}', '{}', '{}', '{}', '{}', '{}', '{}')",
                fn_name(f as u8), det.entrypoint.replace('\'', "''"), det.language, serde_json::to_string(&det.input_types).unwrap(), det.return_type, det.data, det.volatility));
            st.fns.insert(id, (d, fn_name(f as u8), format!("{det:?}")));
        }
    }
    q("COMMIT".into());
    st
}

fn seed_dropped(rows: &[(u8, u8, u8, u8)], st: &mut State) {
    let raw = vfs::Raw::open().expect("raw open");
    for (i, (d, c, t, s)) in rows.iter().enumerate() {
        let u = drop_uuid(i as u8);
        let status = ["PENDING", "RETRY", "FAILED"][*s as usize % 3];
        let at = 1_650_000_000 + i as i64;
        let tn = table_name(*t);
        raw.query(&format!("INSERT INTO dropped_table(database_name, collection_name, table_name, uuid, deletion_status, drop_time) VALUES ('{}','{}','{}',x'{}','{status}',{at})", db_name(*d), coll_name(*c), tn.replace('\'', "''"), u.simple())).expect("seed");
        st.dropped.push((db_name(*d), coll_name(*c), tn, u.to_string(), status.into(), at));
    }
}

// ---------------------------------------------------------------- raw invariants

/// Some(description) if the committed rows of the database file are not consistent.
fn raw_check(full: bool, legacy: bool) -> Option<(String, String)> {
    let raw = vfs::Raw::open()?;
    let q = |s: &str| raw.query(s).ok();
    if full {
        let r = q("PRAGMA integrity_check")?;
        if r != vec![vec!["ok".to_string()]] {
            return Some(("raw:integrity".into(), format!("{r:?}")));
        }
    }
    let t = q("SELECT count(*) FROM sqlite_master WHERE name = 'dropped_table'")?;
    if t[0][0] != "1" {
        return None; // start-up has not finished
    }
    if q("BEGIN").is_none() {
        return None;
    }
    let fk = q("PRAGMA foreign_key_check")?;
    if !fk.is_empty() {
        return Some(("raw:dangling-reference".into(), format!("{fk:?}")));
    }
    let v = q("SELECT \"table\".name FROM \"table\" LEFT JOIN table_version v ON v.table_id = \"table\".id WHERE v.id IS NULL")?;
    if !v.is_empty() {
        return Some(("raw:table-without-version".into(), format!("{v:?}")));
    }
    if legacy {
        return None;
    }
    let rows = q("SELECT \"table\".uuid, v.id, c.name, c.type FROM \"table\" JOIN table_version v ON v.table_id = \"table\".id LEFT JOIN table_column c ON c.table_version_id = v.id")?;
    let mut got: BTreeMap<(String, String), Cols> = BTreeMap::new();
    for r in rows {
        let e = got.entry((r[0].clone(), r[1].clone())).or_default();
        if r[2] != "NULL" {
            e.push((r[2].clone(), col_repr(&r[2], &r[3])));
        }
    }
    let mut h = Fnv::new();
    for d in q("SELECT id, name, -1 FROM database UNION ALL SELECT id, name, database_id FROM collection UNION ALL SELECT id, name, collection_id FROM \"table\" UNION ALL SELECT id, name, database_id FROM function UNION ALL SELECT id, version, table_id FROM table_version").unwrap_or_default() {
        h.write(d.join("/").as_bytes());
    }
    world().path_hashes.push(h.0);
    for ((u, v), mut cols) in got {
        let Ok(uuid) = Uuid::parse_str(&u) else { continue };
        let want = with(|s| s.known.uuids.get(&uuid.to_string()).cloned());
        cols.sort();
        if let Some(want) = want {
            if want != cols {
                return Some(("raw:version-with-wrong-columns".into(), format!("table {uuid} version row {v} has {} columns, was created with {}", cols.len(), want.len())));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- the run

pub struct CatalogSim;

fn spawn(pid: usize, epoch: u64, client: usize, ro: bool, jm: u8) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || process(pid, epoch, client, ro, jm)).unwrap()
}

fn close_open_events(pids: &[usize], wall: i64) {
    with(|s| {
        s.seq += 1;
        let seq = s.seq;
        for p in pids {
            for i in s.open.remove(p).unwrap_or_default() {
                let e = &mut s.events[i];
                if e.end == u64::MAX {
                    e.end = seq;
                    e.wall_lo = e.wall_lo.min(wall);
                    e.wall_hi = e.wall_hi.max(wall);
                }
            }
        }
    })
}

pub fn run(prop: &str, plan: &Plan, d: Decider) -> RunResult {
    vfs::install();
    std::panic::set_hook(Box::new(|i| { if std::env::var("SIM_STDERR").is_ok() { eprintln!("{i}") } }));
    let img = if plan.base > 0 { Some(image(plan.base, plan.journal)) } else { None };
    let epoch = {
        let mut g = world();
        fresh_world(&mut g, d, plan.seed);
        if let Some(i) = img {
            install_image(&mut g, i);
        }
        g.park_reads = plan.park_reads;
        g.ghosts = plan.ghosts;
        g.epoch
    };
    vfs::reset_randomness();
    let nclients = plan.clients.len();
    *shared().lock().unwrap_or_else(|e| e.into_inner()) = Some(Shared {
        plan: plan.clone(),
        known: Known { dbs: HashMap::new(), colls: HashMap::new(), tables: HashMap::new(), uuids: BTreeMap::new(), next_uuid: 0 },
        events: vec![],
        open: HashMap::new(),
        next: vec![0; nclients],
        seq: 0,
        phase: 0,
        final_left: (0..nclients).map(|_| VecDeque::new()).collect(),
        startup_fail: vec![0; nclients],
        startup_ok: vec![false; nclients],
        violation: None,
        op_done: false,
        probe_fail: vec![0; nclients],
    });
    let legacy = plan.base > 0 && (plan.base < 4 || plan.old_json);
    let mut init = State::default();
    if legacy {
        init = legacy_rows(plan.base, plan.old_json, plan.seed);
        with(|s| {
            for (i, n) in &init.dbs {
                for k in 0..4u8 {
                    if db_name(k) == *n {
                        s.known.dbs.insert(k, *i);
                    }
                }
            }
            for (i, (d, n)) in &init.colls {
                for c in 0..4u8 {
                    if coll_name(c) == *n {
                        s.known.colls.insert((*d as u8 - 1, c), *i);
                    }
                }
            }
        });
    }
    if plan.base >= 3 && !plan.dropped.is_empty() {
        seed_dropped(&plan.dropped, &mut init);
    }
    // prelude: sequential, un-faulted, by the real code
    if !plan.prelude.is_empty() && plan.base == 4 {
        let pid = {
            let mut g = world();
            g.new_proc(99, false)
        };
        rt().block_on(async {
            let repo = SqliteRepository::try_new(format!("sqlite:///sim/p{pid}/cat.db"), journal(plan.journal)).await.expect("prelude open");
            for pop in &plan.prelude {
                let cop = with(|s| s.concrete(pop));
                let ev = begin(OBS, 99, false, &cop);
                let res = do_op(&repo, pop, &cop).await;
                with(|s| s.learn(pop, &cop, &res));
                end(OBS, 99, ev, res);
                settle(&repo, None).await;
            }
            repo.executor.close().await;
        });
        world().procs[pid].status = Status::Dead;
    }
    // make the starting point durable and switch the simulation on
    let mut joins: Vec<(usize, std::thread::JoinHandle<()>)> = vec![];
    {
        let mut g = world();
        let inos: Vec<u64> = g.inodes.keys().copied().collect();
        for i in inos {
            g.make_durable(i);
        }
        g.sync_dir();
        g.free_run = false;
        for (k, v) in &plan.fault_rates {
            let f = &mut g.faults;
            match k.as_str() {
                "read" => f.read = *v,
                "write" => f.write = *v,
                "sync" => f.sync = *v,
                "lock" => f.lock = *v,
                "open" => f.open = *v,
                "delete" => f.delete = *v,
                "truncate" => f.truncate = *v,
                _ => f.shm = *v,
            }
        }
        g.faults.budget = plan.fault_budget;
    }
    let start = |client: usize, joins: &mut Vec<(usize, std::thread::JoinHandle<()>)>| {
        let ro = plan.clients[client].read_only;
        let pid = world().new_proc(client, ro);
        joins.push((pid, spawn(pid, epoch, client, ro, plan.journal)));
    };
    for c in 0..nclients {
        start(c, &mut joins);
    }
    let mut crashes = plan.crashes;
    let mut last: Option<usize> = None;
    let mut stop_reason: Option<Violation> = None;
    let mut restarts_left = plan.restarts as u32;
    let mut waiting: Vec<usize> = vec![]; // clients whose process is down until the faults stop
    let step_cap = 60_000u64;
    loop {
        // wait until nobody runs
        let mut g = world();
        while g.running.is_some() {
            let cv = g.sched_cv.clone();
            g = wait(&cv, g);
        }
        // a connection that the driver left in a state seafowl knows nothing of: the process crashes here
        let taints: Vec<usize> = g.procs.iter().enumerate().filter(|(_, p)| p.status == Status::Parked("taint")).map(|(i, _)| i).collect();
        if !taints.is_empty() {
            let wall = g.wall_us().div_euclid(1_000_000);
            for p in &taints {
                g.kill(*p);
            }
            drop(g);
            close_open_events(&taints, wall);
            last = None;
            continue;
        }
        // who has died or failed to start?
        let procs: Vec<(usize, usize, Status)> = g.procs.iter().enumerate().filter(|(_, p)| p.client != 99).map(|(i, p)| (i, p.client, p.status.clone())).collect();
        drop(g);
        let phase = with(|s| s.phase);
        let mut restarted = false;
        for c in 0..nclients {
            if waiting.contains(&c) {
                continue;
            }
            let alive = procs.iter().any(|(_, pc, st)| *pc == c && !matches!(st, Status::Dead | Status::Finished));
            if !alive {
                let fails = with(|s| s.startup_fail[c]);
                if fails >= 300 || fails % 100 > 20 {
                    if phase == 0 {
                        waiting.push(c);
                        continue;
                    }
                    let msg = with(|s| s.events.iter().rev().find(|e| e.who == c).map(|e| format!("{:?}", e.res)).unwrap_or_default());
                    stop_reason = Some(Violation { kind: "startup-fails-without-fault".into(), detail: format!("after the faults stopped, the catalog could not be opened in {fails} attempts (client {c}, read-only {}): {msg}", plan.clients[c].read_only) });
                    break;
                }
                start(c, &mut joins);
                restarted = true;
            }
        }
        if stop_reason.is_some() {
            break;
        }
        if restarted {
            continue;
        }
        // oracle on committed rows
        if plan.observe {
            let due = with(|s| std::mem::take(&mut s.op_done));
            if due {
                if let Some((k, dsc)) = raw_check(false, legacy) {
                    stop_reason = Some(Violation { kind: k, detail: dsc });
                    break;
                }
            }
        }
        let mut g = world();
        g.steps += 1;
        g.now_us += 50;
        if g.steps > step_cap {
            stop_reason = Some(Violation { kind: "no-progress".into(), detail: format!("{step_cap} scheduler steps") });
            break;
        }
        let cands: Vec<usize> = g.procs.iter().enumerate().filter(|(_, p)| match &p.status {
            Status::Parked(w) => *w != "idle",
            Status::Sleeping(t) => *t <= g.now_us,
            _ => false,
        }).map(|(i, _)| i).collect();
        if cands.is_empty() {
            let wake = g.procs.iter().filter_map(|p| if let Status::Sleeping(t) = p.status { Some(t) } else { None }).min();
            if let Some(t) = wake {
                g.now_us = g.now_us.max(t);
                continue;
            }
            // everybody idle
            if phase == 0 {
                g.faults = Faults::default();
                g.disk_full = false;
                let s = format!("{:>6} faults stop", g.steps);
                g.logf(s);
                drop(g);
                crashes = 0;
                with(|s| {
                    s.phase = 1;
                    for c in 0..nclients {
                        s.startup_fail[c] = 0;
                        let mut q = VecDeque::new();
                        let ro = s.plan.clients[c].read_only;
                        if !ro {
                            q.push_back(vec![POp::CreateDb(20 + c as u8)]);
                            q.push_back(vec![POp::GetDb(20 + c as u8)]);
                        }
                        if c == nclients - 1 || ro {
                            for d in 0..3u8 {
                                q.push_back(vec![POp::GetDb(d)]);
                                q.push_back(vec![POp::List(d)]);
                                q.push_back(vec![POp::AllVersions(d, vec![])]);
                                q.push_back(vec![POp::ListFn(d)]);
                            }
                            q.push_back(vec![POp::ListDropped(None)]);
                        }
                        s.final_left[c] = q;
                    }
                });
                waiting.clear();
                let mut g = world();
                for p in g.procs.iter_mut() {
                    if p.status == Status::Parked("idle") {
                        p.status = Status::Parked("gate");
                    }
                }
                continue;
            }
            if restarts_left > 0 {
                // one more orderly start-up by client 0's successor; contents must not change
                restarts_left -= 1;
                let pids: Vec<usize> = g.procs.iter().enumerate().filter(|(_, p)| !matches!(p.status, Status::Dead | Status::Finished)).map(|(i, _)| i).collect();
                for p in &pids {
                    g.kill(*p);
                }
                g.count("restart");
                drop(g);
                with(|s| {
                    let last = nclients - 1;
                    for d in 0..3u8 {
                        s.final_left[last].push_back(vec![POp::List(d)]);
                        s.final_left[last].push_back(vec![POp::AllVersions(d, vec![])]);
                        s.final_left[last].push_back(vec![POp::ListFn(d)]);
                    }
                    s.final_left[last].push_back(vec![POp::ListDropped(None)]);
                });
                continue;
            }
            break;
        }
        // crash?
        if phase == 0 && crashes > 0 && g.d.chance(plan.crash_permille) {
            crashes -= 1;
            let power = g.d.choose(100) < plan.power_percent;
            let wall = g.wall_us().div_euclid(1_000_000);
            let pids: Vec<usize> = if power {
                let v = g.procs.iter().enumerate().filter(|(_, p)| !matches!(p.status, Status::Dead | Status::Finished)).map(|(i, _)| i).collect();
                g.power_failure();
                v
            } else {
                let k = g.d.choose(cands.len() as u32) as usize;
                g.kill(cands[k]);
                vec![cands[k]]
            };
            drop(g);
            close_open_events(&pids, wall);
            last = None;
            continue;
        }
        if plan.jump_permille > 0 && g.d.chance(plan.jump_permille) {
            let secs = [1i64, -1, 100, -100, -3600][g.d.choose(5) as usize];
            let before = g.wall_us().div_euclid(1_000_000);
            g.wall_off_us += secs * 1_000_000;
            g.count("fault:clock_jump");
            let s = format!("{:>6} CLOCK {secs:+}s", g.steps);
            g.logf(s);
            let now = g.wall_us().div_euclid(1_000_000);
            drop(g);
            with(|s| {
                for v in s.open.values() {
                    for i in v {
                        let e = &mut s.events[*i];
                        e.wall_lo = e.wall_lo.min(now).min(before);
                        e.wall_hi = e.wall_hi.max(now).max(before);
                    }
                }
            });
            continue;
        }
        // who runs next: 0 = whoever ran last, if it can
        let mut order = cands.clone();
        if let Some(l) = last {
            if let Some(p) = order.iter().position(|x| *x == l) {
                order.remove(p);
                order.insert(0, l);
            }
        }
        let n = order.len() as u32;
        let stick = plan.stick as u64;
        let k = if n == 1 { 0 } else { g.d.pick(n, |r| if r.chance(stick) { 0 } else { r.below(n as u64) as u32 }) };
        let p = order[k as usize];
        if last.is_some() && last != Some(p) {
            g.count("context_switch");
        }
        last = Some(p);
        let what = match &g.procs[p].status {
            Status::Parked(w) => *w,
            _ => "wake",
        };
        let ph = g.path_hash;
        let mut h = Fnv(if ph == 0 { 0xcbf29ce484222325 } else { ph });
        h.write(&[g.procs[p].client as u8]);
        h.write(what.as_bytes());
        g.path_hash = h.0;
        if std::env::var("SIM_TRACE").is_ok() {
            let s = format!("{:>6} p{p} {what}", g.steps);
            g.logf(s);
        }
        if g.steps % 16 == 0 {
            g.path_hashes.push(h.0);
        }
        g.procs[p].status = Status::Running;
        g.running = Some(p);
        g.procs[p].cv.notify_all();
    }
    // orderly shutdown of whoever is alive (after a violation they stay where they are)
    if stop_reason.is_none() {
        let mut g = world();
        g.free_run = true;
        for p in g.procs.iter() {
            p.cv.notify_all();
        }
    }
    let mut violation = stop_reason;
    if violation.is_none() {
        for (pid, j) in joins {
            let dead = world().procs[pid].status == Status::Dead;
            if !dead {
                let _ = j.join();
            }
        }
        if let Some((k, dsc)) = raw_check(true, legacy) {
            violation = Some(Violation { kind: k, detail: dsc });
        }
    }
    let mut g = world();
    let taint: Option<&'static str> = g.procs.iter().filter_map(|p| p.tainted).max();
    let ro_wrote = g.procs.iter().any(|p| p.read_only && p.wrote_db);
    let mut r = RunResult { log: std::mem::take(&mut g.log), stats: std::mem::take(&mut g.stats), sim_us: g.now_us, steps: g.steps, states: std::mem::take(&mut g.path_hashes), decisions: std::mem::take(&mut g.d.log), ..Default::default() };
    fresh_world(&mut g, Decider::seeded(0), 0);
    drop(g);
    let sh = shared().lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
    let _ = &sh.probe_fail;
    if violation.is_none() {
        violation = sh.violation.clone();
    }
    if violation.is_none() && ro_wrote {
        violation = Some(Violation { kind: "readonly-wrote".into(), detail: "a read-only catalog wrote to the database file".into() });
    }
    let mut events = sh.events;
    for e in events.iter_mut() {
        if e.end == u64::MAX {
            e.end = sh.seq + 1;
        }
    }
    for e in &events {
        let name = format!("{:?}", e.op);
        let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        r.count(&format!("op:{name}"), 1);
        match &e.res {
            Res::Crashed => r.count("res:crashed", 1),
            Res::Err(Err::Other(_)) => r.count("res:error", 1),
            Res::Err(Err::Busy) => r.count("res:busy", 1),
            Res::Err(Err::Unique) => r.count("res:unique", 1),
            Res::Err(Err::Fk) => r.count("res:fk", 1),
            Res::Err(Err::NotFound) => r.count("res:not_found", 1),
            _ => r.count("res:ok", 1),
        }
        if e.who == 99 || !sh.plan.clients.get(e.who).map(|c| c.read_only).unwrap_or(false) {
            continue;
        }
        // a read-only catalog refuses every change
        if violation.is_none() && !is_read(&e.op) && !matches!(e.res, Res::Err(_) | Res::Crashed) {
            violation = Some(Violation { kind: "readonly-accepted-change".into(), detail: format!("{:?} -> {:?}", e.op, e.res) });
        }
    }
    let overlapping = events.iter().enumerate().filter(|(i, e)| events[..*i].iter().any(|f| f.end > e.start)).count();
    r.count("overlapping_ops", overlapping as u64);
    if violation.is_none() {
        let o = linearize(&init, &events);
        r.count("max:linearizer_configurations", o.visited);
        if o.limit {
            r.count("linearizer_limit", 1);
        }
        if !o.ok {
            let ev: Vec<String> = o.stuck.iter().map(|i| brief(&format!("c{} {:?} -> {:?} (faults {}, busy {})", events[*i].who, events[*i].op, events[*i].res, events[*i].faults, events[*i].busy))).collect();
            let first = o.stuck.first().map(|i| {
                let n = format!("{:?}", events[*i].op);
                let n = n.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                let w = match &events[*i].res { Res::Err(Err::Other(_)) => "error", Res::Err(Err::Busy) => "busy", Res::Err(Err::Unique) => "unique", Res::Err(Err::Fk) => "fk", Res::Err(Err::NotFound) => "notfound", _ => "result" };
                format!("{n}:{w}")
            }).unwrap_or_default();
            violation = Some(Violation { kind: format!("unexplained:{first}"), detail: format!("no sequential order of the catalog operations explains the history; after the longest explained prefix (state {}) none of these fits: {}", brief(&format!("{:?}", o.state)), ev.join(" | ")) });
        }
    }
    if let (true, Some(t), Some(v)) = (plan.ghosts, taint, violation.as_mut()) {
        v.detail = format!("{}: {}", v.kind, v.detail);
        v.kind = format!("driver-{t}");
    }
    r.nontrivial = match prop {
        "C01" | "C08" => r.stats.get("fault:kill").copied().unwrap_or(0) + r.stats.get("fault:power_failure").copied().unwrap_or(0) > 0,
        "C03" => overlapping > 0,
        "C07" => r.stats.iter().any(|(k, v)| k.starts_with("fault:") && k.ends_with("_error") && *v > 0) || r.stats.contains_key("fault:disk_full"),
        _ => r.stats.get("res:ok").copied().unwrap_or(0) > 3,
    };
    r.violation = violation;
    r
}

// ---------------------------------------------------------------- plans

fn gen_op(r: &mut Rng, w: &[(u64, u8)], wide: bool) -> POp {
    let ws: Vec<u64> = w.iter().map(|x| x.0).collect();
    let k = w[r.weighted(&ws)].1;
    let db = r.weighted(&[6, 3, 1]) as u8;
    let co = r.weighted(&[6, 3]) as u8;
    let t = r.weighted(&[5, 3, 2, 1, 1]) as u8;
    let f = r.below(4) as u8;
    match k {
        0 => POp::CreateDb(db),
        1 => POp::GetDb(db),
        2 => POp::CreateColl(db, co),
        3 => POp::GetColl(db, co),
        4 => POp::CreateTable(db, co, t, if wide && r.chance(15) { 6 } else if wide && r.chance(60) { 7 } else { r.weighted(&[1, 4, 4, 1, 1, 1]) as u8 }),
        5 => POp::GetTable(db, co, t),
        6 => POp::List(db),
        7 => POp::NewVersion(t, r.below(20) as i64),
        8 => POp::DeleteOld(t),
        9 => POp::AllVersions(db, match r.below(4) { 0 => vec![t], 1 => vec![t, r.below(5) as u8], 2 if r.chance(300) => vec![99], _ => vec![] }),
        10 => POp::Rename(t, r.below(5) as u8, if r.chance(500) { Some((db, r.below(3) as u8)) } else { None }),
        11 => POp::CreateFn(db, f, r.chance(500), r.below(6) as u8),
        12 => POp::ListFn(db),
        13 => POp::DropFn(db, { let n = r.weighted(&[1, 8, 6, 4]); (0..n).map(|_| r.below(4) as u8).collect() }),
        14 => POp::DeleteTable(t),
        15 => POp::DeleteColl(db, co),
        16 => POp::DeleteDb(db),
        17 => POp::ListDropped(if r.chance(500) { Some(db) } else { None }),
        18 => POp::UpdDropped(r.below(6) as u8, r.below(3) as u8),
        _ => POp::DelDropped(r.below(6) as u8),
    }
}

impl Sim for CatalogSim {
    type Plan = Plan;
    const NAME: &'static str = "catalog-sim";

    fn gen(prop: &str, r: &mut Rng, _i: u64, thorough: bool) -> Plan {
        let basic: Vec<(u64, u8)> = vec![(3, 0), (1, 1), (4, 2), (1, 3), (6, 4), (1, 5), (2, 6), (5, 7), (2, 8), (1, 9), (2, 10), (3, 11), (1, 12), (1, 13), (2, 14), (1, 15), (1, 16)];
        let w: Vec<(u64, u8)> = match prop {
            "C02" => vec![(1, 0), (2, 2), (8, 4), (6, 6), (7, 7), (2, 8), (3, 9), (3, 10), (2, 11), (1, 12), (1, 13), (2, 14), (1, 15)],
            "C03" => vec![(6, 0), (2, 1), (7, 2), (2, 3), (8, 4), (2, 5), (4, 6), (6, 7), (2, 8), (2, 9), (4, 10), (6, 11), (2, 12), (2, 13), (2, 14), (2, 15), (2, 16)],
            "C04" => vec![(4, 0), (2, 1), (6, 2), (3, 3), (7, 4), (3, 5), (4, 6), (3, 7), (1, 8), (2, 9), (6, 10), (4, 11), (2, 12), (2, 13), (4, 14), (4, 15), (3, 16)],
            "C05" => vec![(1, 2), (4, 4), (4, 6), (9, 7), (6, 8), (5, 9), (3, 10), (1, 14), (1, 15)],
            "C06" => vec![(2, 0), (10, 11), (6, 12), (8, 13), (1, 16), (1, 6)],
            "C10" => vec![(5, 17), (6, 18), (4, 19), (1, 4), (1, 14), (1, 6)],
            _ => basic.clone(),
        };
        let single = match prop {
            "C01" => r.chance(500),
            "C02" => r.chance(250),
            "C03" | "C09" => false,
            "C04" | "C05" | "C06" | "C10" => r.chance(450),
            "C07" => r.chance(600),
            "C08" => true,
            _ => false,
        };
        let n = if single { 1 } else { r.range(2, 3) };
        let len = |r: &mut Rng, single: bool| if single { r.range(4, if thorough { 30 } else { 16 }) } else { r.range(2, if thorough { 9 } else { 6 }) };
        let mut clients = vec![];
        for c in 0..n {
            let ro = prop == "C09" && c > 0;
            let k = len(r, n == 1);
            let mut steps = vec![];
            for _ in 0..k {
                let burst = if n == 1 && prop != "C08" { r.chance(200) } else { r.chance(80) };
                let m = if burst && !ro { r.range(2, 3) } else { 1 }; // a read-only pool has 10 connections: one at a time
                let wro: Vec<(u64, u8)> = vec![(4, 1), (3, 3), (3, 5), (8, 6), (3, 9), (3, 12), (1, 17), (1, 0), (1, 2), (1, 4), (1, 8), (1, 10), (1, 11), (1, 14)];
                steps.push((0..m).map(|_| gen_op(r, if ro { &wro } else { &w }, prop == "C02")).collect());
            }
            clients.push(Client { read_only: ro, steps });
        }
        let base = match prop {
            "C08" => r.weighted(&[2, 2, 3, 4, 3]) as u8,
            "C01" if r.chance(100) => 0,
            "C09" | "C10" => 4,
            _ => 4,
        };
        if prop == "C08" {
            // mostly reads around interrupted start-ups
            for c in clients.iter_mut() {
                c.steps.truncate(3);
                for d in 0..2u8 {
                    c.steps.push(vec![POp::List(d)]);
                }
            }
        }
        let old_json = prop == "C08" && base == 4 && r.chance(700);
        let mut prelude = vec![];
        if base == 4 && !old_json {
            for d in 0..r.range(1, 2) as u8 {
                prelude.push(POp::CreateDb(d));
                for c in 0..r.range(0, 2) as u8 {
                    prelude.push(POp::CreateColl(d, c));
                    for t in 0..r.range(0, 3) as u8 {
                        if r.chance(700) {
                            prelude.push(POp::CreateTable(d, c, t, r.weighted(&[1, 4, 4, 1]) as u8));
                            if r.chance(400) {
                                prelude.push(POp::NewVersion(t, 1));
                            }
                        }
                    }
                }
                if r.chance(500) {
                    prelude.push(POp::CreateFn(d, 0, false, 0));
                }
                if prop == "C06" {
                    for f in 1..4 {
                        if r.chance(500) {
                            prelude.push(POp::CreateFn(d, f, false, f));
                        }
                    }
                }
            }
        }
        let ndrop = if prop == "C10" { r.range(1, 5) } else if r.chance(150) { r.range(0, 2) } else { 0 };
        let dropped = (0..ndrop).map(|_| (r.below(3) as u8, r.below(2) as u8, r.below(4) as u8, r.below(3) as u8)).collect();
        let (crashes, power) = match prop {
            "C01" => (r.range(1, 3) as u32, *r.pick(&[100, 100, 50, 0])),
            "C08" => (r.range(1, 3) as u32, *r.pick(&[100, 50, 0])),
            "C02" => (r.weighted(&[4, 3, 1]) as u32, *r.pick(&[100, 0])),
            "C04" | "C05" | "C06" => (r.weighted(&[6, 1, 1]) as u32, *r.pick(&[100, 0])),
            "C09" => (r.weighted(&[3, 2, 1]) as u32, *r.pick(&[50, 0])),
            "C10" => (r.weighted(&[2, 2, 1]) as u32, *r.pick(&[100, 0])),
            _ => (0, 0),
        };
        let faulty = match prop {
            "C07" => true,
            "C02" => r.chance(400),
            "C04" | "C05" | "C06" | "C10" => r.chance(200),
            "C01" => r.chance(200),
            "C08" => r.chance(300),
            _ => false,
        };
        let mut fault_rates = vec![];
        if faulty {
            for k in ["read", "write", "sync", "lock", "open", "delete", "truncate", "shm"] {
                if r.chance(if prop == "C07" { 500 } else { 350 }) {
                    fault_rates.push((k.to_string(), *r.pick(&[2, 5, 10, 30, 80])));
                }
            }
        }
        Plan {
            seed: r.next(),
            journal: r.weighted(&[6, 2, 1, 1]) as u8,
            base,
            old_json,
            prelude,
            dropped,
            clients,
            stick: *r.pick(&[0, 300, 600, 850, 950]),
            crash_permille: *r.pick(&[2, 5, 12, 30]),
            crashes,
            power_percent: power,
            jump_permille: if prop == "C05" || r.chance(100) { *r.pick(&[0, 2, 10, 30]) } else { 0 },
            fault_rates,
            fault_budget: if faulty { r.range(1, 6) as u32 } else { 0 },
            park_reads: r.chance(100),
            observe: match prop { "C02" | "C04" => true, "C07" => r.chance(300), _ => r.chance(100) },
            ghosts: prop == "C07" && r.chance(50),
            restarts: match prop { "C08" => r.range(1, 3) as u8, "C01" | "C10" => 1, _ => r.chance(200) as u8 },
        }
    }

    fn run(prop: &str, plan: &Plan, d: Decider) -> RunResult {
        run(prop, plan, d)
    }

    fn shrink(p: &Plan) -> Vec<Plan> {
        let mut v = vec![];
        let mut push = |f: &dyn Fn(&mut Plan)| {
            let mut q = p.clone();
            f(&mut q);
            v.push(q);
        };
        if p.clients.len() > 1 {
            for c in 0..p.clients.len() {
                push(&|q| {
                    q.clients.remove(c);
                });
            }
        }
        if p.crashes > 0 {
            push(&|q| q.crashes = 0);
            push(&|q| q.crashes -= 1);
        }
        if p.fault_budget > 0 {
            push(&|q| q.fault_budget = 0);
            push(&|q| q.fault_budget -= 1);
        }
        if p.jump_permille > 0 {
            push(&|q| q.jump_permille = 0);
        }
        if p.restarts > 0 {
            push(&|q| q.restarts = 0);
        }
        if !p.dropped.is_empty() {
            push(&|q| q.dropped.clear());
        }
        if p.observe {
            push(&|q| q.observe = false);
        }
        if p.ghosts {
            push(&|q| q.ghosts = false);
        }
        if p.park_reads {
            push(&|q| q.park_reads = false);
        }
        for (c, cl) in p.clients.iter().enumerate() {
            let n = cl.steps.len();
            if n > 3 {
                push(&|q| q.clients[c].steps.truncate(n / 2));
                push(&|q| {
                    q.clients[c].steps.drain(..n / 2);
                });
            }
            for i in (0..n).rev() {
                push(&|q| {
                    q.clients[c].steps.remove(i);
                });
                if cl.steps[i].len() > 1 {
                    for j in 0..cl.steps[i].len() {
                        push(&|q| {
                            q.clients[c].steps[i].remove(j);
                        });
                    }
                }
            }
        }
        for i in (0..p.prelude.len()).rev() {
            push(&|q| {
                q.prelude.remove(i);
            });
        }
        if p.journal != 0 {
            push(&|q| q.journal = 0);
        }
        v
    }

    fn meta(prop: &str) -> Meta {
        let rule = match prop {
            "C01" => "random catalog histories of 1-3 server processes with 1-3 kills or power failures; non-trivial: at least one crash happened",
            "C08" => "start-ups of databases written by every schema version, interrupted by crashes and faults; non-trivial: at least one crash happened",
            "C03" => "2-3 server processes (and bursts of tasks within one) on one database; non-trivial: operations overlapped",
            "C07" => "histories with injected storage errors and full disks; non-trivial: at least one fault fired",
            _ => "random histories of 1-3 server processes with the property's operations emphasised; non-trivial: more than 3 successful operations",
        };
        Meta {
            level: "exploration",
            rule: format!("{rule}; counted distinct by the hash of the event log and the decision list"),
            state_measure: "hashes of committed catalog contents and of the sequence of (process, system call) since the last completed operation, sampled every 16 steps".into(),
            real: vec!["src/repository/{default,sqlite,interface}.rs", "migrations/sqlite", "src/wasm_udf/data_types.rs", "sqlx 0.7 SQLite driver and pool", "SQLite 3 (bundled)"],
            stub: vec!["operating system: SQLite VFS with in-memory disk, page cache, locks, shared memory, clock", "server processes are threads released one at a time"],
            assumptions: vec![
                "a write does not damage bytes outside its range (SQLITE_IOCAP_POWERSAFE_OVERWRITE, the SQLite default on unix)".into(),
                "sampled schedules and faults, not exhaustive".into(),
            ],
            quick_runs: match prop { "C08" => 2000, _ => 3000 },
            thorough_runs: 200_000,
            quick_secs: 60,
            thorough_secs: 1500,
            probes: match prop {
                "C01" => vec!["fault:power_failure", "fault:kill", "fault:unsynced_write_lost", "fault:unsynced_write_torn"],
                "C03" => vec!["overlapping_ops", "lock_busy", "res:unique"],
                "C04" => vec!["res:fk", "res:not_found"],
                "C05" => vec!["fault:clock_jump"],
                "C07" => vec!["fault:write_error", "fault:sync_error", "fault:disk_full", "res:error"],
                _ => vec![],
            },
            batch: 60,
        }
    }
}
