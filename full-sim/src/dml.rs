//! SQL clients of a few servers that share one object store and one catalog.
use crate::cat::{Host, SimRepo};
use crate::srv;
use asim::store::SimStore;
use asim::{End, Faults};
use futures::FutureExt;
use seafowl::config::schema::DataSyncConfig;
use seafowl::context::SeafowlContext;
use seafowl::repository::interface::{Repository};
use serde::{Deserialize, Serialize};
use simcore::{Decider, Meta, Rng, RunResult, Violation};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub type Row = (i64, Option<i64>, Option<String>);
pub type Rows = Vec<Row>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pred {
    VEq(i64),
    VNe(i64),
    VLt(i64),
    VGe(i64),
    VNull,
    SEq(String),
    SNe(String),
    Id(i64),
    IdIn(i64, i64),
    Not(Box<Pred>),
    And(Box<Pred>, Box<Pred>),
    Or(Box<Pred>, Box<Pred>),
}
impl Pred {
    fn sql(&self) -> String {
        match self {
            Pred::VEq(k) => format!("v = {k}"),
            Pred::VNe(k) => format!("v <> {k}"),
            Pred::VLt(k) => format!("v < {k}"),
            Pred::VGe(k) => format!("v >= {k}"),
            Pred::VNull => "v IS NULL".into(),
            Pred::SEq(s) => format!("s = '{s}'"),
            Pred::SNe(s) => format!("s <> '{s}'"),
            Pred::Id(k) => format!("id = {k}"),
            Pred::IdIn(a, b) => format!("id BETWEEN {a} AND {b}"),
            Pred::Not(p) => format!("NOT ({})", p.sql()),
            Pred::And(p, q) => format!("({}) AND ({})", p.sql(), q.sql()),
            Pred::Or(p, q) => format!("({}) OR ({})", p.sql(), q.sql()),
        }
    }
    /// True, false or unknown, as in SQL.
    fn eval(&self, r: &Row) -> Option<bool> {
        match self {
            Pred::VEq(k) => r.1.map(|v| v == *k),
            Pred::VNe(k) => r.1.map(|v| v != *k),
            Pred::VLt(k) => r.1.map(|v| v < *k),
            Pred::VGe(k) => r.1.map(|v| v >= *k),
            Pred::VNull => Some(r.1.is_none()),
            Pred::SEq(s) => r.2.as_ref().map(|v| v == s),
            Pred::SNe(s) => r.2.as_ref().map(|v| v != s),
            Pred::Id(k) => Some(r.0 == *k),
            Pred::IdIn(a, b) => Some(*a <= r.0 && r.0 <= *b),
            Pred::Not(p) => p.eval(r).map(|b| !b),
            Pred::And(p, q) => match (p.eval(r), q.eval(r)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Pred::Or(p, q) => match (p.eval(r), q.eval(r)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Set {
    V(Option<i64>),
    Plus(i64),
    S(Option<String>),
    Both(i64, String),
}
impl Set {
    fn sql(&self) -> String {
        let s = |s: &Option<String>| s.as_ref().map_or("NULL".to_string(), |s| format!("'{s}'"));
        match self {
            Set::V(v) => format!("v = {}", v.map_or("NULL".into(), |v| v.to_string())),
            Set::Plus(k) => format!("v = v + {k}"),
            Set::S(x) => format!("s = {}", s(x)),
            Set::Both(v, x) => format!("s = '{x}', v = {v}"),
        }
    }
    fn apply(&self, r: &Row) -> Row {
        let mut r = r.clone();
        match self {
            Set::V(v) => r.1 = *v,
            Set::Plus(k) => r.1 = r.1.map(|v| v + k),
            Set::S(s) => r.2 = s.clone(),
            Set::Both(v, s) => {
                r.1 = Some(*v);
                r.2 = Some(s.clone())
            }
        }
        r
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Stmt {
    Insert(u8, Rows),
    /// Copies of the rows of the second table, under ids moved by so much.
    InsertFrom(u8, u8, Option<Pred>, i64),
    Update(u8, Set, Option<Pred>),
    Delete(u8, Option<Pred>),
    Truncate(u8),
    Select(u8, Option<Pred>),
    Vacuum(u8),
    /// As of the time of a version (counted modulo how many there are) plus so many ms; how it is
    /// written; what kind of query it is.
    At(u8, u8, i64, u8, u8),
    Rename(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    pub stmt: Stmt,
    pub pause_ms: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Client {
    pub server: u8,
    pub items: Vec<Item>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub servers: u8,
    pub tables: u8,
    pub clients: Vec<Client>,
    pub partition: u32,
    pub crashes: Vec<u64>,
    pub faults: u32,
    pub budget: u32,
    pub sticky: u32,
    pub stall: u32,
    pub stall_ms: Vec<u64>,
    /// Columns declared NOT NULL: 1 for v, 2 for s.
    #[serde(default)]
    pub strict: u8,
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Ok,
    Failed(String),
    Lost,
}
#[derive(Clone, Debug)]
struct Rec {
    tag: String,
    stmt: Stmt,
    sql: String,
    start: usize,
    end: Option<usize>,
    out: Outcome,
    rows: Option<Rows>,
    /// What a time travel query asked for.
    target: Vec<i64>,
    faults: u64,
}

struct Shared {
    plan: Plan,
    prop: String,
    bad: RefCell<Option<Violation>>,
    store: SimStore,
    host: Arc<Host>,
    next: RefCell<Vec<usize>>,
    recs: RefCell<Vec<Rec>>,
    uuids: RefCell<Vec<String>>,
    /// Current name of each table.
    names: RefCell<Vec<String>>,
    armed: Cell<bool>,
    finished: Cell<bool>,
    life: Cell<usize>,
}

impl Shared {
    fn fail(&self, kind: &str, detail: String) {
        asim::note(format!("        VIOLATION {kind}: {detail}"));
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(Violation { kind: kind.into(), detail });
        }
    }
    fn now(&self) -> usize {
        self.store.requests.lock().unwrap().len()
    }
}

fn conf(partition: u32) -> srv::Conf {
    srv::Conf { max_partition_size: partition, sync: DataSyncConfig::default() }
}
pub async fn server(store: &SimStore, host: &Arc<Host>, partition: u32) -> Arc<SeafowlContext> {
    Arc::new(srv::context(store, Some(Arc::new(SimRepo(host.clone()))), &conf(partition)).await)
}

pub async fn query(ctx: &SeafowlContext, sql: &str) -> Result<Vec<arrow::record_batch::RecordBatch>, String> {
    let f = async {
        let plan = ctx.plan_query(sql).await?;
        ctx.collect(plan).await
    };
    match std::panic::AssertUnwindSafe(f).catch_unwind().await {
        Ok(r) => r.map_err(|e| e.to_string().replace('\n', " ").chars().take(300).collect()),
        Err(_) => {
            asim::count("statements that panicked");
            Err("panicked".into())
        }
    }
}
pub fn to_rows(bs: &[arrow::record_batch::RecordBatch]) -> Rows {
    let mut v = vec![];
    for b in bs {
        let col = |n: &str, i: usize| -> Option<String> {
            let a = b.column_by_name(n)?;
            (!a.is_null(i)).then(|| arrow::util::display::array_value_to_string(a, i).unwrap())
        };
        for i in 0..b.num_rows() {
            v.push((col("id", i).and_then(|s| s.parse().ok()).unwrap_or(-1), col("v", i).and_then(|s| s.parse().ok()), col("s", i)));
        }
    }
    v.sort();
    v
}
pub fn values(rows: &[Row]) -> String {
    let v: Vec<String> = rows
        .iter()
        .map(|r| format!("({}, {}, {})", r.0, r.1.map_or("NULL".into(), |v| v.to_string()), r.2.as_ref().map_or("NULL".into(), |s| format!("'{s}'"))))
        .collect();
    v.join(", ")
}
pub fn show(rows: &[Row]) -> String {
    let v: Vec<String> = rows.iter().map(|r| format!("{}:{}{}", r.0, r.1.map_or("-".into(), |v| v.to_string()), r.2.as_deref().unwrap_or("-"))).collect();
    format!("{{{}}}", v.join(" "))
}

// ---- what the log says

pub struct Version {
    /// When (in requests) and by whom it was committed.
    pub at: usize,
    pub by: String,
    pub ms: i64,
    pub files: BTreeSet<String>,
    pub rows: Rows,
}
/// All versions of a table, from what the store holds and held.
pub fn versions(store: &SimStore, uuid: &str) -> Result<Vec<Version>, String> {
    let all: BTreeMap<String, bytes::Bytes> = futures::executor::block_on(asim::store::contents(&store.inner)).into_iter().collect();
    let trash = store.trash.lock().unwrap();
    let done = store.done.lock().unwrap();
    let mut v: Vec<Version> = vec![];
    let mut cache: BTreeMap<String, Rows> = BTreeMap::new();
    for n in 0.. {
        let path = format!("{uuid}/_delta_log/{n:020}.json");
        let Some(body) = all.get(&path) else { break };
        let d = done.iter().find(|d| d.ok && d.kind == "put" && d.path == path).ok_or(format!("{path} appeared from nowhere"))?;
        let ms = futures::executor::block_on(object_store::ObjectStore::head(&*store.inner, &path.clone().into())).map_err(|e| e.to_string())?.last_modified.timestamp_millis();
        let mut files = v.last().map(|p| p.files.clone()).unwrap_or_default();
        for l in String::from_utf8_lossy(body).lines() {
            let j: serde_json::Value = serde_json::from_str(l).map_err(|e| format!("{path}: {e}"))?;
            if let Some(f) = j["remove"]["path"].as_str() {
                files.remove(f);
            }
        }
        for l in String::from_utf8_lossy(body).lines() {
            let j: serde_json::Value = serde_json::from_str(l).map_err(|e| format!("{path}: {e}"))?;
            if let Some(f) = j["add"]["path"].as_str() {
                files.insert(f.to_string());
            }
        }
        let mut rows = vec![];
        for f in &files {
            if !cache.contains_key(f) {
                let full = format!("{uuid}/{f}");
                let b = all.get(&full).or_else(|| trash.get(&full)).ok_or_else(|| format!("version {n} refers to {f}, which was never there"))?.clone();
                let rd = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(b).and_then(|b| b.build()).map_err(|e| format!("version {n}: {f}: {e}"))?;
                let bs: Vec<_> = rd.collect::<Result<_, _>>().map_err(|e| format!("version {n}: {f}: {e}"))?;
                cache.insert(f.clone(), to_rows(&bs));
            }
            rows.extend(cache[f].iter().cloned());
        }
        rows.sort();
        v.push(Version { at: d.at, by: d.client.trim_end_matches('\'').to_string(), ms, files, rows });
    }
    Ok(v)
}

fn minus(a: &Rows, b: &Rows) -> Option<Rows> {
    let mut a = a.clone();
    for r in b {
        let i = a.iter().position(|x| x == r)?;
        a.remove(i);
    }
    Some(a)
}
fn matching(rows: &Rows, p: &Option<Pred>) -> Rows {
    rows.iter().filter(|r| p.as_ref().map_or(true, |p| p.eval(r) == Some(true))).cloned().collect()
}
/// What a statement removes and adds if it sees these rows.
fn effect(s: &Stmt, seen: &Rows) -> (Rows, Rows) {
    match s {
        Stmt::Insert(_, r) => (vec![], r.clone()),
        Stmt::Update(_, set, p) => {
            let m = matching(seen, p);
            let n = m.iter().map(|r| set.apply(r)).collect();
            (m, n)
        }
        Stmt::Delete(_, p) => (matching(seen, p), vec![]),
        Stmt::Truncate(_) => (seen.clone(), vec![]),
        _ => (vec![], vec![]),
    }
}
fn refused(rows: &[Row], strict: u8) -> bool {
    rows.iter().any(|r| strict & 1 > 0 && r.1.is_none() || strict & 2 > 0 && r.2.is_none())
}
fn table_of(s: &Stmt) -> usize {
    match s {
        Stmt::Insert(t, _) | Stmt::InsertFrom(t, ..) | Stmt::Update(t, ..) | Stmt::Delete(t, _) | Stmt::Truncate(t) | Stmt::Select(t, _) | Stmt::Vacuum(t) | Stmt::At(t, ..) | Stmt::Rename(t) => *t as usize,
    }
}
fn writes(s: &Stmt) -> bool {
    matches!(s, Stmt::Insert(..) | Stmt::InsertFrom(..) | Stmt::Update(..) | Stmt::Delete(..) | Stmt::Truncate(..))
}

/// Judge the whole history.
fn judge(sh: &Shared) {
    let nt = sh.plan.tables as usize;
    let uuids = sh.uuids.borrow().clone();
    let mut all = vec![];
    for t in 0..nt {
        match versions(&sh.store, &uuids[t]) {
            Ok(v) => all.push(v),
            Err(e) => return sh.fail("broken-table", format!("t{t}: {e}")),
        }
    }
    let recs = sh.recs.borrow();
    let by: BTreeMap<&str, &Rec> = recs.iter().map(|r| (r.tag.as_str(), r)).collect();
    // versions in existence at some point
    let upto = |t: usize, at: usize| all[t].iter().rposition(|v| v.at <= at).unwrap_or(0);
    for (t, vs) in all.iter().enumerate() {
        asim::count_n("versions judged", vs.len() as u64);
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        for (n, v) in vs.iter().enumerate().skip(1) {
            let before = &vs[n - 1].rows;
            if refused(&v.rows, sh.plan.strict) {
                return sh.fail("null-stored", format!("t{t}: version {n} by {} holds {}, with NULL in a column that is NOT NULL", v.by, show(&v.rows)));
            }
            let Some(r) = by.get(v.by.as_str()) else {
                if v.rows != *before {
                    return sh.fail("change-by-nobody", format!("t{t}: version {n} by {}: {} becomes {}", v.by, show(before), show(&v.rows)));
                }
                continue;
            };
            if !writes(&r.stmt) {
                if v.rows != *before {
                    return sh.fail("contents-changed", format!("t{t}: {} makes {} of {}", r.sql, show(&v.rows), show(before)));
                }
                continue;
            }
            if table_of(&r.stmt) != t {
                return sh.fail("wrong-table", format!("t{t}: version {n} by {}", r.sql));
            }
            if !seen.insert(&r.tag) {
                return sh.fail("twice", format!("t{t}: version {n} is the second by {} ({})", r.sql, r.tag));
            }
            let from = upto(t, r.start);
            let ok = (from..n).any(|s| {
                if let Stmt::InsertFrom(_, u, p, k) = &r.stmt {
                    let u = *u as usize;
                    return (upto(u, r.start)..=upto(u, v.at)).any(|w| {
                        let mut have = before.clone();
                        have.extend(matching(&all[u][w].rows, p).into_iter().map(|(i, v, s)| (i + k, v, s)));
                        have.sort();
                        have == v.rows
                    });
                }
                let (del, add) = effect(&r.stmt, &vs[s].rows);
                let Some(mut have) = minus(before, &del) else { return false };
                have.extend(add);
                have.sort();
                have == v.rows
            });
            if !ok {
                return sh.fail("wrong-effect", format!("t{t}: {} ({}) makes {} of {} in version {n}; it started at version {from}", r.sql, r.tag, show(&v.rows), show(before)));
            }
            asim::count("effects checked");
        }
        // what was acknowledged is there
        for r in recs.iter().filter(|r| r.out == Outcome::Ok && writes(&r.stmt) && table_of(&r.stmt) == t) {
            let end = r.end.unwrap();
            match vs.iter().position(|v| v.by == r.tag) {
                Some(n) if vs[n].at <= end => {}
                Some(n) => return sh.fail("acknowledged-early", format!("t{t}: {} was acknowledged before version {n} was there", r.sql)),
                None => {
                    let idle = (upto(t, r.start)..=upto(t, end)).any(|s| match &r.stmt {
                        Stmt::InsertFrom(_, u, p, _) => (upto(*u as usize, r.start)..=upto(*u as usize, end)).any(|w| matching(&all[*u as usize][w].rows, p).is_empty()),
                        s2 => {
                            let (mut d, mut a) = effect(s2, &vs[s].rows);
                            d.sort();
                            a.sort();
                            d == a
                        }
                    });
                    if !idle {
                        return sh.fail("lost", format!("t{t}: {} ({}) was acknowledged and never committed", r.sql, r.tag));
                    }
                }
            }
        }
        // queries
        for r in recs.iter().filter(|r| r.out == Outcome::Ok && table_of(&r.stmt) == t) {
            let end = r.end.unwrap();
            let got = r.rows.as_ref();
            match &r.stmt {
                Stmt::Select(_, p) => {
                    let got = got.unwrap();
                    if !(upto(t, r.start)..=upto(t, end)).any(|s| matching(&vs[s].rows, p) == *got) {
                        return sh.fail("wrong-answer", format!("t{t}: {} ({}) answers {}; versions {} to {} hold {}", r.sql, r.tag, show(got), upto(t, r.start), upto(t, end), (upto(t, r.start)..=upto(t, end)).map(|s| show(&matching(&vs[s].rows, p))).collect::<Vec<_>>().join(" ")));
                    }
                    asim::count("answers checked");
                }
                Stmt::At(_, _, _, _, form) => {
                    let got = got.unwrap();
                    let lasts: Vec<usize> = (upto(t, r.start)..=upto(t, end)).collect();
                    // the versions an answer may show
                    let may = |target: i64| -> BTreeSet<usize> {
                        let mut m = BTreeSet::new();
                        for l in &lasts {
                            let n = (0..=*l).rev().find(|n| vs[*n].ms <= target).unwrap_or(0);
                            m.insert(n);
                            // several in the same millisecond
                            if vs[n].ms == target {
                                m.extend((0..=*l).filter(|k| vs[*k].ms == target));
                            }
                        }
                        m
                    };
                    let a = may(r.target[0]);
                    let ok = match form {
                        2 => a.iter().any(|x| {
                            may(r.target[1]).iter().any(|y| {
                                let mut w = vs[*x].rows.clone();
                                w.extend(vs[*y].rows.iter().cloned());
                                w.sort();
                                w == *got
                            })
                        }),
                        3 => a.iter().any(|x| {
                            lasts.iter().any(|y| {
                                let mut w = vs[*x].rows.clone();
                                w.extend(vs[*y].rows.iter().cloned());
                                w.sort();
                                w == *got
                            })
                        }),
                        _ => a.iter().any(|x| vs[*x].rows == *got),
                    };
                    if !ok {
                        return sh.fail("wrong-version", format!("t{t}: {} ({}) answers {}, not version {a:?}; versions {}", r.sql, r.tag, show(got), vs.iter().map(|v| format!("{} ms: {}", v.ms, show(&v.rows))).collect::<Vec<_>>().join(", ")));
                    }
                    asim::count("answers checked");
                }
                _ => {}
            }
        }
        // nothing that is needed is gone
        for d in sh.store.done.lock().unwrap().iter().filter(|d| d.kind == "delete" && d.ok) {
            let Some(f) = d.path.strip_prefix(&format!("{}/", uuids[t])) else { continue };
            asim::count("deletions checked");
            let from = upto(t, d.at);
            if f.starts_with("_delta_log") || vs[from..].iter().any(|v| v.files.contains(f)) {
                return sh.fail("deleted-in-use", format!("t{t}: {f} is deleted by {} and in use", d.client));
            }
        }
    }
    // without faults queries succeed, and so do statements nothing competes with
    if sh.plan.faults == 0 && !recs.iter().any(|r| matches!(r.stmt, Stmt::Vacuum(_))) {
        for r in recs.iter() {
            if let Outcome::Failed(e) = &r.out {
                let t = table_of(&r.stmt);
                let end = r.end.unwrap();
                let nulls = (upto(t, r.start)..=upto(t, end)).any(|v| match &r.stmt {
                    Stmt::InsertFrom(_, u, p, _) => (upto(*u as usize, r.start)..=upto(*u as usize, end)).any(|w| refused(&matching(&all[*u as usize][w].rows, p), sh.plan.strict)),
                    s => refused(&effect(s, &all[t][v].rows).1, sh.plan.strict),
                });
                if nulls {
                    asim::count("NULLs refused");
                    continue;
                }
                if !writes(&r.stmt) || sh.plan.clients.len() == 1 {
                    return sh.fail("fails-without-fault", format!("{} ({}): {e}", r.sql, r.tag));
                }
            }
        }
    }
}

fn when(ms: i64, form: u8) -> (i64, String) {
    use chrono::{DateTime, FixedOffset, Utc};
    let at = |ms: i64| DateTime::<Utc>::from_timestamp_millis(ms).unwrap();
    let s = ms.div_euclid(1000) * 1000;
    match form {
        0 => (ms, at(ms).to_rfc3339_opts(chrono::SecondsFormat::Millis, true)),
        1 => (ms, at(ms).with_timezone(&FixedOffset::east_opt(2 * 3600 + 1800).unwrap()).to_rfc3339_opts(chrono::SecondsFormat::Millis, false)),
        2 => (s, at(s).format("%Y-%m-%d %H:%M:%S").to_string()),
        3 => (s, at(s).with_timezone(&FixedOffset::west_opt(3 * 3600).unwrap()).format("%Y-%m-%d %H:%M:%S %z").to_string()),
        _ => (s, at(s).to_rfc2822()),
    }
}

fn sql_of(sh: &Shared, s: &Stmt, target: &mut Vec<i64>) -> String {
    let name = |t: &u8| sh.names.borrow()[*t as usize].clone();
    let cond = |p: &Option<Pred>| p.as_ref().map_or(String::new(), |p| format!(" WHERE {}", p.sql()));
    match s {
        Stmt::Insert(t, rows) => format!("INSERT INTO {} VALUES {}", name(t), values(rows)),
        Stmt::InsertFrom(t, u, p, k) => format!("INSERT INTO {} SELECT id + {k} AS id, v, s FROM {}{}", name(t), name(u), cond(p)),
        Stmt::Update(t, set, p) => format!("UPDATE {} SET {}{}", name(t), set.sql(), cond(p)),
        Stmt::Delete(t, p) => format!("DELETE FROM {}{}", name(t), cond(p)),
        Stmt::Truncate(t) => format!("TRUNCATE TABLE {}", name(t)),
        Stmt::Select(t, p) => format!("SELECT id, v, s FROM {}{}", name(t), cond(p)),
        Stmt::Vacuum(t) => format!("VACUUM TABLE {}", name(t)),
        Stmt::Rename(t) => {
            let old = name(t);
            let new = if let Some((a, b)) = old.split_once('_') { format!("{a}_{}", b.parse::<u32>().unwrap() + 1) } else { format!("{old}_1") };
            format!("ALTER TABLE {old} RENAME TO {new}")
        }
        Stmt::At(t, n, d, f, form) => {
            let vs = versions(&sh.store, &sh.uuids.borrow()[*t as usize]).unwrap_or_default_versions();
            let ms = |n: u8| vs.get(n as usize % vs.len().max(1)).map_or(1_750_000_000_000, |v| v.ms);
            let (at, text) = when(ms(*n) + d, *f);
            target.push(at);
            let name = name(t);
            match form {
                1 => format!("WITH q AS (SELECT * FROM {name}('{text}')) SELECT id, v, s FROM q"),
                2 => {
                    let (at2, text2) = when(ms(n.wrapping_add(1)) - d, (*f + 1) % 5);
                    target.push(at2);
                    format!("SELECT id, v, s FROM {name}('{text}') UNION ALL SELECT id, v, s FROM {name}('{text2}')")
                }
                3 => format!("SELECT id, v, s FROM {name}('{text}') UNION ALL SELECT id, v, s FROM {name}"),
                4 => format!("SELECT id, v, s FROM public.{name}('{text}')"),
                5 => format!("SELECT id, v, s FROM {name} ('{text}') AS x WHERE id IN (SELECT id FROM default.public.{name}('{text}'))"),
                _ => format!("SELECT id, v, s FROM {name}('{text}')"),
            }
        }
    }
}
trait OrDefault {
    fn unwrap_or_default_versions(self) -> Vec<Version>;
}
impl OrDefault for Result<Vec<Version>, String> {
    fn unwrap_or_default_versions(self) -> Vec<Version> {
        self.unwrap_or_else(|_| vec![])
    }
}

async fn client(c: usize, ctx: Arc<SeafowlContext>, sh: Rc<Shared>) {
    loop {
        let i = sh.next.borrow()[c];
        let items = &sh.plan.clients[c].items;
        if i >= items.len() || sh.bad.borrow().is_some() {
            return;
        }
        sh.next.borrow_mut()[c] = i + 1;
        let it = &items[i];
        if it.pause_ms > 0 {
            tokio::time::sleep(Duration::from_millis(it.pause_ms as u64)).await;
        }
        let mut target = vec![];
        let sql = sql_of(&sh, &it.stmt, &mut target);
        let tag = format!("c{c}.{i}");
        asim::note(format!("        {tag}: {sql}"));
        let fired = asim::with(|w| w.fired).unwrap_or(0);
        let k = {
            let mut r = sh.recs.borrow_mut();
            r.push(Rec { tag: tag.clone(), stmt: it.stmt.clone(), sql: sql.clone(), start: sh.now(), end: None, out: Outcome::Lost, rows: None, target, faults: fired });
            r.len() - 1
        };
        let res = asim::CLIENT.scope(tag.clone(), query(&ctx, &sql)).await;
        let fired = asim::with(|w| w.fired).unwrap_or(0);
        let mut r = sh.recs.borrow_mut();
        r[k].end = Some(sh.now());
        r[k].faults = fired - r[k].faults;
        match res {
            Ok(b) => {
                r[k].out = Outcome::Ok;
                r[k].rows = Some(to_rows(&b));
                asim::count(&format!("done:{}", sql.split(' ').next().unwrap()));
                asim::note(format!("        {tag} done{}", if matches!(it.stmt, Stmt::Select(..) | Stmt::At(..)) { format!(": {}", show(r[k].rows.as_ref().unwrap())) } else { String::new() }));
                if let Stmt::Rename(t) = &it.stmt {
                    sh.names.borrow_mut()[*t as usize] = sql.rsplit(' ').next().unwrap().into();
                }
            }
            Err(e) => {
                asim::count(&format!("failed:{}", sql.split(' ').next().unwrap()));
                asim::note(format!("        {tag} fails: {e}"));
                r[k].out = Outcome::Failed(e);
            }
        }
    }
}

async fn life(sh: Rc<Shared>) {
    let p = &sh.plan;
    let mut servers = vec![];
    for _ in 0..p.servers {
        servers.push(server(&sh.store, &sh.host, p.partition).await);
    }
    if !sh.armed.get() {
        for t in 0..p.tables {
            query(&servers[0], &format!("CREATE TABLE t{t} (id BIGINT, v BIGINT{}, s VARCHAR{})", ["", " NOT NULL"][(p.strict & 1) as usize], ["", " NOT NULL"][(p.strict >> 1 & 1) as usize])).await.expect("setup");
        }
        let all = sh.host.now(sh.host.repo.list_collections("default")).unwrap();
        *sh.uuids.borrow_mut() = (0..p.tables).map(|t| all.iter().find(|c| c.table_name.as_deref() == Some(&format!("t{t}"))).unwrap().table_uuid.unwrap().to_string()).collect();
        sh.armed.set(true);
    }
    asim::with(|w| {
        w.faults = Faults { rates: vec![("get", p.faults / 2, 300), ("head", p.faults / 2, 0), ("catalog ", p.faults / 4, 0), ("", p.faults, 500)], budget: p.budget };
    });
    let hs: Vec<_> = (0..p.clients.len())
        .map(|c| asim::spawn_client(format!("c{c}"), client(c, servers[p.clients[c].server as usize % servers.len()].clone(), sh.clone())))
        .collect();
    for h in hs {
        let _ = h.await;
    }
    if sh.bad.borrow().is_some() {
        return;
    }
    asim::calm();
    asim::note("        all done, faults end");
    judge(&sh);
    if sh.bad.borrow().is_some() {
        return;
    }
    // a server that just started sees the last version of everything
    let fresh = server(&sh.store, &sh.host, p.partition).await;
    let live = sh.host.now(sh.host.repo.list_collections("default")).unwrap();
    for t in 0..p.tables as usize {
        let uuid = sh.uuids.borrow()[t].clone();
        let name = live.iter().find(|c| c.table_uuid.is_some_and(|u| u.to_string() == uuid)).and_then(|c| c.table_name.clone());
        let Some(name) = name else { return sh.fail("unlisted", format!("t{t} is not listed any more")) };
        let want = match versions(&sh.store, &uuid) {
            Ok(mut v) => v.pop().map(|v| v.rows).unwrap_or_default(),
            Err(e) => return sh.fail("broken-table", format!("t{t}: {e}")),
        };
        match query(&fresh, &format!("SELECT id, v, s FROM {name}")).await {
            Ok(b) => {
                let got = to_rows(&b);
                if got != want {
                    return sh.fail("wrong-contents", format!("t{t} holds {}, a query at the end answers {}", show(&want), show(&got)));
                }
                asim::count("tables read at the end");
            }
            Err(e) => return sh.fail("unreadable", format!("t{t} cannot be read at the end: {e}")),
        }
    }
    sh.finished.set(true);
}

pub fn run(prop: &str, p: &Plan, d: Decider) -> RunResult {
    let (prop, p) = (prop.to_string(), p.clone());
    let res = asim::isolated(move || {
        let mut res = RunResult::default();
        let _scratch = srv::Scratch::new();
        asim::begin(d);
        let sh = Rc::new(Shared {
            prop,
            bad: RefCell::new(None),
            store: SimStore::new(""),
            host: Host::new(),
            next: RefCell::new(vec![0; p.clients.len()]),
            recs: Default::default(),
            uuids: Default::default(),
            names: RefCell::new((0..p.tables).map(|t| format!("t{t}")).collect()),
            armed: Cell::new(false),
            finished: Cell::new(false),
            life: Cell::new(0),
            plan: p.clone(),
        });
        let cfg = asim::Config { sticky: p.sticky, stall: p.stall, stall_ms: p.stall_ms.clone(), max_steps: 60_000 };
        loop {
            let (s2, s3) = (sh.clone(), sh.clone());
            let n = sh.life.get();
            let crash = p.crashes.get(n).cloned();
            let mut steps = 0u64;
            let end = asim::run(&cfg, async move { life(s2).await }, move || {
                if s3.armed.get() {
                    steps += 1;
                }
                s3.bad.borrow().is_none() && crash.is_none_or(|c| steps < c)
            });
            if sh.bad.borrow().is_some() {
                break;
            }
            match end {
                End::Stopped => {
                    asim::note("        CRASH");
                    asim::count("fault:crash");
                    sh.life.set(n + 1);
                }
                End::Done => {
                    if !sh.finished.get() {
                        sh.fail("panic", "the server panicked".into());
                    }
                    break;
                }
                End::Stuck => {
                    sh.fail("hang", "nothing can go on, yet not every statement is answered".into());
                    break;
                }
                End::Endless => {
                    sh.fail("hang", "not finished within 60000 steps".into());
                    break;
                }
            }
        }
        let w = asim::end();
        res.violation = sh.bad.borrow().clone();
        res.nontrivial = *w.stats.get("versions judged").unwrap_or(&0) > 2;
        res.stats = w.stats;
        res.states = w.states;
        res.log = w.log;
        res.steps = w.steps;
        res.decisions = w.d.log;
        res.sim_us = asim::sys::elapsed_us();
        res
    });
    match res {
        Ok(r) => r,
        Err(e) => {
            let what = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness panicked: {what}");
            std::process::abort()
        }
    }
}

// ---- generation

const WORDS: [&str; 3] = ["a", "b", "c"];

fn pred(rng: &mut Rng, ids: i64, depth: u32) -> Pred {
    if depth > 0 && rng.chance(300) {
        let a = Box::new(pred(rng, ids, depth - 1));
        return match rng.below(3) {
            0 => Pred::Not(a),
            1 => Pred::And(a, Box::new(pred(rng, ids, depth - 1))),
            _ => Pred::Or(a, Box::new(pred(rng, ids, depth - 1))),
        };
    }
    let k = rng.below(6) as i64;
    match rng.below(9) {
        0 => Pred::VEq(k),
        1 => Pred::VNe(k),
        2 => Pred::VLt(k),
        3 => Pred::VGe(k),
        4 => Pred::VNull,
        5 => Pred::SEq(rng.pick(&WORDS).to_string()),
        6 => Pred::SNe(rng.pick(&WORDS).to_string()),
        7 => Pred::Id(rng.below(ids.max(1) as u64 + 1) as i64),
        _ => {
            let a = rng.below(ids.max(1) as u64 + 1) as i64;
            Pred::IdIn(a, a + rng.below(5) as i64)
        }
    }
}
pub fn row(rng: &mut Rng, id: &mut i64) -> Row {
    *id += 1;
    (*id, if rng.chance(200) { None } else { Some(rng.below(6) as i64) }, if rng.chance(200) { None } else { Some(rng.pick(&WORDS).to_string()) })
}

pub fn gen(prop: &str, rng: &mut Rng, _i: u64, thorough: bool) -> Plan {
    let tables = if prop == "D06" { 1 + rng.chance(200) as u8 } else { *rng.pick(&[1u8, 1, 1, 2]) };
    let nc = match prop {
        "D01" => *rng.pick(&[1, 1, 1, 2]),
        "D06" => *rng.pick(&[1, 1, 2, 3]),
        "D05" => rng.range(2, 4),
        _ => rng.range(2, 5),
    };
    let mut id = 0;
    let mut shift = 0;
    // rows to start with
    let mut clients: Vec<Client> = vec![];
    let servers = *rng.pick(&[1u8, 2, 2]);
    let pauses = match prop {
        "D06" => *rng.pick(&[[1u32, 3, 700], [0, 1, 2], [1000, 2500, 60_000]]),
        _ => *rng.pick(&[[0u32, 0, 0], [0, 1, 20]]),
    };
    let nulls = rng.chance(500);
    for c in 0..nc {
        let n = rng.range(2, if thorough { 12 } else { 7 });
        let items = (0..n)
            .map(|i| {
                let t = rng.below(tables as u64) as u8;
                let cond = |rng: &mut Rng, id: i64| rng.chance(850).then(|| pred(rng, id, 2));
                let w: &[u64] = match prop {
                    "D01" => &[6, 1, 4, 3, 1, 1, 0, 0, 0],
                    "D02" => &[5, 1, 4, 3, 1, 4, 0, 0, 0],
                    "D05" => &[4, 0, 4, 3, 1, 3, if c == 0 { 8 } else { 1 }, 0, 0],
                    _ => &[4, 0, 2, 2, 1, 1, 0, 8, if nc == 1 { 1 } else { 0 }],
                };
                let w = if i == 0 && c == 0 { &[1, 0, 0, 0, 0, 0, 0, 0, 0][..] } else { w };
                let stmt = match rng.weighted(w) {
                    0 => {
                        let n = *rng.pick(&[1, 2, 3, 5, 9]);
                        Stmt::Insert(t, (0..n).map(|_| row(rng, &mut id)).map(|r| if nulls { r } else { (r.0, Some(r.1.unwrap_or(0)), Some(r.2.unwrap_or("a".into()))) }).collect())
                    }
                    1 => {
                        shift += 1000;
                        Stmt::InsertFrom(t, rng.below(tables as u64) as u8, cond(rng, id), shift)
                    }
                    2 => {
                        let set = match rng.below(4) {
                            0 => Set::V(if rng.chance(200) { None } else { Some(rng.below(6) as i64) }),
                            1 => Set::Plus(rng.range(1, 3) as i64),
                            2 => Set::S(if rng.chance(200) { None } else { Some(rng.pick(&WORDS).to_string()) }),
                            _ => Set::Both(rng.below(6) as i64, rng.pick(&WORDS).to_string()),
                        };
                        Stmt::Update(t, set, cond(rng, id))
                    }
                    3 => Stmt::Delete(t, Some(pred(rng, id, 2)).filter(|_| rng.chance(900))),
                    4 => Stmt::Truncate(t),
                    5 => Stmt::Select(t, rng.chance(300).then(|| pred(rng, id, 1))),
                    6 => Stmt::Vacuum(t),
                    7 => Stmt::At(t, rng.below(12) as u8, *rng.pick(&[-1000, -1, 0, 0, 0, 1, 400, 1000]), rng.below(5) as u8, rng.below(6) as u8),
                    _ => Stmt::Rename(t),
                };
                Item { stmt, pause_ms: *rng.pick(&pauses) }
            })
            .collect();
        clients.push(Client { server: rng.below(servers as u64) as u8, items });
    }
    let faulty = match prop {
        "D01" => rng.chance(700),
        "D05" => rng.chance(500),
        "D02" => rng.chance(150),
        _ => rng.chance(100),
    };
    let crashes = match prop {
        "D01" if !faulty || rng.chance(400) => (0..rng.range(1, if thorough { 4 } else { 3 })).map(|_| rng.range(2, 90)).collect(),
        "D05" if rng.chance(400) => vec![rng.range(2, 120)],
        _ => vec![],
    };
    Plan {
        servers,
        tables,
        clients,
        partition: *rng.pick(&[1, 2, 3, 4, 1000]),
        crashes,
        faults: if faulty { *rng.pick(&[20, 60, 200]) } else { 0 },
        budget: *rng.pick(&[1, 2, 4, 10]),
        sticky: *rng.pick(&[0, 300, 700, 900]),
        stall: *rng.pick(&[0, 0, 30]),
        stall_ms: vec![1, 10, 1100],
        strict: if rng.chance(250) { rng.range(1, 3) as u8 } else { 0 },
    }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let same = serde_json::to_string(p).unwrap();
    let mut add = |q: Plan| {
        if serde_json::to_string(&q).unwrap() != same {
            v.push(q)
        }
    };
    for c in 0..p.clients.len() {
        if p.clients.len() > 1 {
            let mut q = p.clone();
            q.clients.remove(c);
            add(q);
        }
    }
    for f in [
        |q: &mut Plan| q.stall = 0,
        |q: &mut Plan| q.faults = 0,
        |q: &mut Plan| q.budget = 1,
        |q: &mut Plan| q.sticky = 0,
        |q: &mut Plan| q.servers = 1,
        |q: &mut Plan| {
            q.crashes.pop();
        },
        |q: &mut Plan| q.partition = 1000,
        |q: &mut Plan| q.strict = 0,
        |q: &mut Plan| q.strict &= 1,
        |q: &mut Plan| q.clients.iter_mut().flat_map(|c| &mut c.items).for_each(|i| i.pause_ms = 0),
    ] {
        let mut q = p.clone();
        f(&mut q);
        add(q);
    }
    for c in 0..p.clients.len() {
        for i in 0..p.clients[c].items.len() {
            let mut q = p.clone();
            q.clients[c].items.remove(i);
            add(q);
        }
    }
    for c in 0..p.clients.len() {
        for i in 0..p.clients[c].items.len() {
            let mut q = p.clone();
            match &mut q.clients[c].items[i].stmt {
                Stmt::Insert(_, r) if r.len() > 1 => {
                    for k in 0..r.len() {
                        let mut q = p.clone();
                        if let Stmt::Insert(_, r) = &mut q.clients[c].items[i].stmt {
                            r.remove(k);
                        }
                        v.push(q);
                    }
                    continue;
                }
                Stmt::Update(_, _, w) | Stmt::Delete(_, w) | Stmt::Select(_, w) | Stmt::InsertFrom(_, _, w, _) => match w.clone() {
                    Some(Pred::Not(a)) => *w = Some(*a),
                    Some(Pred::And(a, b)) | Some(Pred::Or(a, b)) => {
                        *w = Some(*a);
                        v.push(q.clone());
                        if let Stmt::Update(_, _, w) | Stmt::Delete(_, w) | Stmt::Select(_, w) | Stmt::InsertFrom(_, _, w, _) = &mut q.clients[c].items[i].stmt {
                            *w = Some(*b);
                        }
                    }
                    _ => continue,
                },
                _ => continue,
            }
            v.push(q);
        }
    }
    v
}

pub fn meta(prop: &str) -> Meta {
    Meta {
        level: "exploration",
        quick_runs: 2_000_000,
        thorough_runs: 100_000_000,
        quick_secs: 45,
        thorough_secs: 3000,
        batch: 60,
        rule: "runs in which at least two versions of a table were committed after its creation".into(),
        state_measure: "hash of the sequence of operations (object store requests, catalog calls, task starts) and their outcomes so far, at every step".into(),
        real: vec![
            "src/context, src/catalog, src/repository (with the real SQLite), src/provider.rs, src/version.rs, src/datafusion, src/object_store/wrapped.rs, src/config/context.rs (all of /repo/src compiled from the working tree, but src/context/iceberg.rs)",
            "DataFusion 44, parquet, sqlx and SQLite, object_store InMemory and PrefixStore",
        ],
        stub: vec![
            "deltalake (a stand-in written for this: log, snapshot, commits with conflict detection, scans, vacuum)",
            "order of all asynchronous operations, task starts, time and wall clock (simulated tokio)",
            "object store and catalog faults: refused requests, bodies cut off, lost answers; crashes of the servers",
        ],
        assumptions: vec![
            "a catalog call takes effect at one point or not at all (checked by C01-C10)".into(),
            "delta-rs itself behaves as its stand-in".into(),
            "compiled without overflow checks, as the release profile is".into(),
        ],
        probes: match prop {
            "D01" => vec!["effects checked", "fault:crash", "fault:put fails", "tables read at the end"],
            "D05" => vec!["effects checked", "deletions checked", "done:VACUUM"],
            "D06" => vec!["answers checked"],
            _ => vec!["effects checked", "answers checked", "failed:UPDATE"],
        },
    }
}
