//! R01-R05: replication through the real Flight service, sync writer, planner and Delta commits.

use crate::srv;
use arrow::array::*;
use arrow_schema::{DataType, Field, Schema};
use asim::store::SimStore;
use asim::{End, Faults};
use clade::sync::{ColumnDescriptor, ColumnRole, DataSyncCommand, DataSyncResponse};
use seafowl::config::schema::DataSyncConfig;
use seafowl::frontend::flight::sim::Flight;
use serde::{Deserialize, Serialize};
use simcore::{Decider, Meta, Rng, RunResult,  Violation};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// What a message does to a row of its origin, as far as the row is there.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Ins,
    Upd,
    Del,
    Mov,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    pub act: Act,
    pub key: (u8, u8),
    pub to: (u8, u8),
    pub vals: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Msg {
    pub table: u8,
    pub steps: Vec<Step>,
    /// Ends its transaction.
    pub close: bool,
    /// Per value column: 0 plain, 1 with a flag whether it changed, 2 left out.
    pub cols: [u8; VALUES],
    /// Order of the columns.
    pub order: u8,
    /// Rows per record batch.
    pub split: u8,
    pub pause_ms: u32,
    /// The source loses the connection after so long.
    pub abandon_ms: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub tables: u8,
    pub composite: bool,
    pub origins: Vec<Vec<Msg>>,
    pub max_bytes: usize,
    pub lag_s: u64,
    pub max_syncs: usize,
    pub lock_s: u64,
    pub interval_s: u64,
    pub partition: u32,
    /// Step at which each life of the server ends.
    pub crashes: Vec<u64>,
    pub faults: u32,
    pub budget: u32,
    pub sticky: u32,
    pub stall: u32,
    pub stall_ms: Vec<u64>,
    /// Wall clock jumps: after so many messages overall, by so many seconds.
    pub jumps: Vec<(u32, i32)>,
}
pub const VALUES: usize = 3;
const NAMES: [&str; VALUES] = ["v0", "v1", "v2"];

type Key = (i64, i64);
type Row = Vec<Option<String>>;
type Rows = BTreeMap<Key, Row>;

fn pk_types(table: u8) -> [DataType; 2] {
    if table % 2 == 0 {
        [DataType::Int32, DataType::Utf8]
    } else {
        [DataType::Utf8, DataType::Int32]
    }
}
fn val_type(i: usize) -> DataType {
    match i {
        1 => DataType::Utf8,
        _ => DataType::Int32,
    }
}
fn array(t: &DataType, v: &[Option<String>]) -> ArrayRef {
    match t {
        DataType::Int32 => Arc::new(Int32Array::from_iter(v.iter().map(|x| x.as_ref().map(|s| s.parse::<i32>().unwrap())))),
        DataType::Boolean => Arc::new(BooleanArray::from_iter(v.iter().map(|x| x.as_ref().map(|s| s == "true")))),
        _ => Arc::new(StringArray::from_iter(v.iter().cloned())),
    }
}
fn key_part(t: &DataType, v: i64) -> String {
    match t {
        DataType::Int32 => v.to_string(),
        _ => format!("{v:05}"),
    }
}

// ---- compiled messages

/// A change row: old key, new key, per value column (changed?, value).
struct Change {
    old: Option<Key>,
    new: Option<Key>,
    vals: Vec<(bool, Option<String>)>,
}
pub struct Sent {
    table: u8,
    rows: Vec<Change>,
    seq: Option<u64>,
    tx: usize,
    msg: Msg,
    opens: bool,
}
pub struct Source {
    msgs: Vec<Sent>,
    /// Per table: contents after each message that has rows for it.
    states: Vec<Vec<(usize, Rows)>>,
    /// The same, where the contents come from.
    cells: Vec<Vec<(usize, Cells)>>,
    features: BTreeSet<&'static str>,
}

/// Where the value of a column of a row comes from.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Cell0 {
    /// Number of the change that set it, and its message.
    id: u32,
    at: usize,
    /// The last message that changed the row and left this column as it was.
    kept: Option<usize>,
    /// One of these flagged it as unchanged, rather than leaving it out.
    flagged: bool,
    /// One of these changed the key too.
    moved: bool,
}
type Cells = BTreeMap<Key, [Cell0; VALUES]>;

fn value(o: usize, i: usize, vals: u32) -> Option<String> {
    let x = (vals >> (i * 8)) & 0xff;
    if x % 5 == 0 {
        return None;
    }
    Some(match val_type(i) {
        DataType::Utf8 => format!("{}{x}", ["a", "bb", "Ü"][o % 3]),
        _ => (x as i32 - 100).to_string(),
    })
}

fn compile(p: &Plan, o: usize) -> Source {
    let mut cur: Vec<Rows> = vec![Rows::new(); p.tables as usize];
    let mut states: Vec<Vec<(usize, Rows)>> = vec![vec![]; p.tables as usize];
    let mut cells: Vec<Vec<(usize, Cells)>> = vec![vec![]; p.tables as usize];
    let mut from: Vec<Cells> = vec![Cells::new(); p.tables as usize];
    let mut id = 0;
    let mut features = BTreeSet::new();
    let mut msgs: Vec<Sent> = vec![];
    let mut seen = vec![false; p.tables as usize];
    let mut tx = 0;
    let mut opens = true;
    let n = p.origins[o].len();
    for (i, m) in p.origins[o].iter().enumerate() {
        let t = (m.table % p.tables) as usize;
        let mut m = m.clone();
        if !seen[t] {
            // it may create the table
            m.cols = [0; VALUES];
        }
        let omits = m.cols.contains(&2);
        let key = |k: (u8, u8)| (o as i64 * 100 + k.0 as i64, if p.composite { k.1 as i64 } else { 0 });
        let mut rows = vec![];
        for s in &m.steps {
            let (k, k2) = (key(s.key), key(s.to));
            let there = cur[t].contains_key(&k);
            let act = match s.act {
                Act::Ins | Act::Upd if !there => Act::Ins,
                Act::Ins => Act::Upd,
                Act::Mov if there && !cur[t].contains_key(&k2) => Act::Mov,
                Act::Mov if there => Act::Upd,
                Act::Mov => continue,
                Act::Del if !there => continue,
                a => a,
            };
            if act == Act::Ins && omits {
                continue; // an insert has all columns
            }
            let old: Row = cur[t].get(&k).cloned().unwrap_or(vec![None; VALUES]);
            let mut new = old.clone();
            let mut origin = from[t].get(&k).cloned().unwrap_or_default();
            let mut vals = vec![];
            let mut partial = false;
            for c in 0..VALUES {
                let v = value(o, c, s.vals);
                // a column without flag always has the current value
                let changed = act == Act::Ins || m.cols[c] == 0 || (s.vals >> (24 + c)) & 1 == 1;
                partial |= !changed || m.cols[c] == 2;
                if act == Act::Del {
                    vals.push((m.cols[c] == 1 && (s.vals >> (27 + c)) & 1 == 1, None));
                    continue;
                }
                if m.cols[c] != 2 && changed {
                    new[c] = v.clone();
                    id += 1;
                    origin[c] = Cell0 { id, at: msgs.len(), ..Default::default() };
                    vals.push((true, v));
                } else {
                    origin[c].kept = Some(msgs.len());
                    origin[c].moved |= act == Act::Mov;
                    origin[c].flagged |= m.cols[c] == 1;
                    vals.push((false, None));
                }
            }
            if m.cols.contains(&1) {
                features.insert("changed");
            }
            if omits {
                features.insert("omitted");
            }
            from[t].remove(&k);
            match act {
                Act::Ins | Act::Upd => from[t].insert(k, origin),
                Act::Mov => from[t].insert(k2, origin),
                Act::Del => None,
            };
            match act {
                Act::Ins => {
                    cur[t].insert(k, new);
                    rows.push(Change { old: None, new: Some(k), vals });
                }
                Act::Upd => {
                    cur[t].insert(k, new);
                    rows.push(Change { old: Some(k), new: Some(k), vals });
                }
                Act::Del => {
                    cur[t].remove(&k);
                    rows.push(Change { old: Some(k), new: None, vals });
                }
                Act::Mov => {
                    if partial {
                        features.insert("partial-move");
                    }
                    cur[t].remove(&k);
                    cur[t].insert(k2, new);
                    rows.push(Change { old: Some(k), new: Some(k2), vals });
                }
            }
        }
        if p.composite {
            features.insert("composite");
        }
        let close = m.close || i + 1 == n;
        if rows.is_empty() && (!close || opens) {
            // nothing to tell
            continue;
        }
        if !rows.is_empty() {
            seen[t] = true;
            states[t].push((msgs.len(), cur[t].clone()));
            cells[t].push((msgs.len(), from[t].clone()));
        }
        msgs.push(Sent { table: t as u8, rows, seq: close.then(|| (tx as u64 + 1) * 10 + o as u64), tx, msg: m, opens });
        opens = close;
        if close {
            tx += 1;
        }
    }
    if let Some(l) = msgs.last_mut() {
        if l.seq.is_none() {
            l.seq = Some((l.tx as u64 + 1) * 10 + o as u64);
        }
    }
    Source { msgs, states, cells, features }
}

fn encode(p: &Plan, o: usize, s: &Sent) -> (DataSyncCommand, Vec<RecordBatch>) {
    let mut cols: Vec<(ColumnDescriptor, Field, ArrayRef)> = vec![];
    let cd = |r: ColumnRole, n: &str| ColumnDescriptor { role: r as i32, name: n.into() };
    let types = pk_types(s.table);
    for (i, t) in types.iter().enumerate().take(if p.composite { 2 } else { 1 }) {
        let part = |k: &Option<Key>| k.map(|k| key_part(t, if i == 0 { k.0 } else { k.1 }));
        let old: Vec<_> = s.rows.iter().map(|r| part(&r.old)).collect();
        let new: Vec<_> = s.rows.iter().map(|r| part(&r.new)).collect();
        let n = format!("k{i}");
        cols.push((cd(ColumnRole::OldPk, &n), Field::new(format!("old_{n}"), t.clone(), true), array(t, &old)));
        cols.push((cd(ColumnRole::NewPk, &n), Field::new(format!("new_{n}"), t.clone(), true), array(t, &new)));
    }
    for c in 0..VALUES {
        let t = val_type(c);
        let mode = s.msg.cols[c];
        if mode == 2 {
            continue;
        }
        if mode == 1 {
            let f: Vec<_> = s.rows.iter().map(|r| Some(r.vals[c].0.to_string())).collect();
            cols.push((cd(ColumnRole::Changed, NAMES[c]), Field::new(format!("changed_{}", NAMES[c]), DataType::Boolean, false), array(&DataType::Boolean, &f)));
        }
        let v: Vec<_> = s.rows.iter().map(|r| r.vals[c].1.clone()).collect();
        cols.push((cd(ColumnRole::Value, NAMES[c]), Field::new(NAMES[c], t.clone(), true), array(&t, &v)));
    }
    // another order of the columns, the same for the same number
    if s.msg.order > 0 {
        let mut r = Rng::new(s.msg.order as u64);
        for i in (1..cols.len()).rev() {
            cols.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    let schema = Arc::new(Schema::new(cols.iter().map(|c| c.1.clone()).collect::<Vec<_>>()));
    let all = RecordBatch::try_new(schema, cols.iter().map(|c| c.2.clone()).collect()).unwrap();
    let step = if s.msg.split == 0 { all.num_rows().max(1) } else { s.msg.split as usize };
    let batches = (0..all.num_rows().max(1)).step_by(step).map(|i| all.slice(i, step.min(all.num_rows().saturating_sub(i)))).collect();
    let cmd = DataSyncCommand {
        path: format!("t{}", s.table),
        store: None,
        column_descriptors: cols.into_iter().map(|c| c.0).collect(),
        origin: format!("origin{o}"),
        sequence_number: s.seq,
        format: 0,
    };
    (cmd, batches)
}
/// A message without rows and sequence number asks for the sequence numbers.
async fn probe(f: &Flight, o: usize) -> Result<DataSyncResponse, tonic::Status> {
    let cd = |r: ColumnRole| ColumnDescriptor { role: r as i32, name: "k0".into() };
    let cmd = DataSyncCommand { path: "t0".into(), store: None, column_descriptors: vec![cd(ColumnRole::OldPk), cd(ColumnRole::NewPk)], origin: format!("origin{o}"), sequence_number: None, format: 0 };
    let schema = Schema::new(vec![Field::new("a", DataType::Int32, true), Field::new("b", DataType::Int32, true)]);
    f.put(cmd, vec![RecordBatch::new_empty(Arc::new(schema))]).await
}

// ---- reading what is stored

#[derive(Default)]
pub struct Reader {
    files: BTreeMap<String, Vec<(Key, Row)>>,
    seen: usize,
    /// Live files and version of each table.
    tables: BTreeMap<String, (i64, BTreeSet<String>)>,
    /// What the commits seen by the last `poll` say of the source's position, in order.
    positions: BTreeMap<String, Vec<Option<(String, u64, bool)>>>,
}
impl Reader {
    fn file(&mut self, path: &str, bytes: bytes::Bytes, composite: bool) -> Result<Vec<(Key, Row)>, String> {
        if let Some(r) = self.files.get(path) {
            return Ok(r.clone());
        }
        let mut v = vec![];
        let rd = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(bytes).map_err(|e| format!("{path}: {e}"))?.build().map_err(|e| format!("{path}: {e}"))?;
        for b in rd {
            let b = b.map_err(|e| format!("{path}: {e}"))?;
            let col = |n: &str, i: usize| -> Option<String> {
                let a = b.column_by_name(n)?;
                (!a.is_null(i)).then(|| arrow::util::display::array_value_to_string(a, i).unwrap())
            };
            for i in 0..b.num_rows() {
                let k = |n| col(n, i).and_then(|s| s.parse::<i64>().ok());
                let key = (k("k0").unwrap_or(-1), if composite { k("k1").unwrap_or(-1) } else { 0 });
                v.push((key, NAMES.iter().map(|n| col(n, i)).collect()));
            }
        }
        self.files.insert(path.into(), v.clone());
        Ok(v)
    }
    /// Tables that changed since the last time, with their contents.
    fn poll(&mut self, store: &SimStore, composite: bool) -> Result<Vec<(String, Vec<(Key, Row)>)>, String> {
        self.positions.clear();
        let n = {
            let q = store.requests.lock().unwrap();
            let new = q[self.seen..].iter().any(|r| matches!(r.0.as_str(), "put" | "copy_if_not_exists" | "copy" | "complete") && r.1.contains("_delta_log/"));
            if !new {
                self.seen = q.len();
                return Ok(vec![]);
            }
            q.len()
        };
        self.seen = n;
        let all: BTreeMap<String, bytes::Bytes> = futures::executor::block_on(asim::store::contents(&store.inner)).into_iter().collect();
        let mut changed = BTreeSet::new();
        for (path, body) in &all {
            let Some((table, rest)) = path.split_once("/_delta_log/") else { continue };
            let Some(v) = rest.strip_suffix(".json").and_then(|v| v.parse::<i64>().ok()) else { continue };
            let e = self.tables.entry(table.to_string()).or_insert((-1, Default::default()));
            if v <= e.0 {
                continue;
            }
            if v != e.0 + 1 {
                return Err(format!("{table}: version {v} after {}", e.0));
            }
            e.0 = v;
            changed.insert(table.to_string());
            let mut position = None;
            for l in String::from_utf8_lossy(body).lines() {
                let j: serde_json::Value = serde_json::from_str(l).map_err(|e| format!("{path}: {e}"))?;
                if let Some(f) = j["add"]["path"].as_str() {
                    e.1.insert(f.to_string());
                }
                if let Some(f) = j["remove"]["path"].as_str() {
                    e.1.remove(f);
                }
                let i = &j["commitInfo"]["sync_commit_info"];
                if !i.is_null() {
                    match (i["origin"].as_str(), i["sequence"].as_u64(), i["new_tx"].as_bool()) {
                        (Some(o), Some(s), Some(n)) => position = Some((o.to_string(), s, n)),
                        _ => return Err(format!("{path}: position {i}")),
                    }
                }
            }
            self.positions.entry(table.to_string()).or_default().push(position);
        }
        let mut out = vec![];
        for t in changed {
            let mut rows = vec![];
            for f in self.tables[&t].1.clone() {
                let full = format!("{t}/{f}");
                let b = all.get(&full).ok_or_else(|| format!("version {} of {t} refers to {f}, which is not there", self.tables[&t].0))?.clone();
                rows.extend(self.file(&full, b, composite)?);
            }
            out.push((t, rows));
        }
        Ok(out)
    }
}

// ---- the run

#[derive(Default, Clone)]
struct Told {
    /// In this life of the server.
    memory: Option<u64>,
    durable: Option<u64>,
}
struct Shared {
    plan: Plan,
    prop: String,
    sources: Vec<Source>,
    features: String,
    bad: RefCell<Option<Violation>>,
    store: SimStore,
    reader: RefCell<Reader>,
    gauges: Gauges,
    life: Cell<usize>,
    /// Next message of each origin, and the first that was not sent at all yet.
    next: RefCell<Vec<usize>>,
    frontier: RefCell<Vec<usize>>,
    /// Highest sequence number each source knows to be durable.
    safe: RefCell<Vec<Option<u64>>>,
    told: RefCell<Vec<Told>>,
    /// Contents of each table as last committed, and the message each origin's part corresponds to.
    rows: RefCell<Vec<Rows>>,
    at: RefCell<Vec<Vec<Option<usize>>>>,
    /// The position the last commit of each table records.
    position: RefCell<Vec<Option<(String, u64, bool)>>>,
    /// The last message it may correspond to.
    upto: RefCell<Vec<Vec<Option<usize>>>>,
    /// Changes that got lost in a known way: per table and origin, numbers of the changes.
    lost: RefCell<BTreeSet<(usize, usize, u32)>>,
    lost_kinds: RefCell<BTreeMap<&'static str, String>>,
    redelivered: Cell<bool>,
    sent: Cell<u32>,
    last_error: RefCell<String>,
    back_s: Cell<u64>,
    /// For each table, the first message accepted that is not committed, and since when (us).
    since: RefCell<BTreeMap<(usize, usize), (usize, u64)>>,
    finished: Cell<bool>,
    flights: RefCell<Option<Flight>>,
}

impl Shared {
    fn fail(&self, props: &[&str], kind: &str, detail: String) {
        if !props.contains(&self.prop.as_str()) {
            return;
        }
        let kind = format!("{kind}{}", self.features);
        asim::note(format!("        VIOLATION {kind}: {detail}"));
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(Violation { kind, detail });
        }
    }
    fn quiet(&self) -> bool {
        self.plan.faults == 0 && self.plan.crashes.is_empty() && !self.redelivered.get() && self.plan.stall == 0
    }
    fn owned(&self, t: usize, o: usize) -> Rows {
        self.rows.borrow()[t].iter().filter(|(k, _)| k.0 / 100 == o as i64).map(|(k, v)| (*k, v.clone())).collect()
    }
    /// Whether contents are what origin `o` left in table `t` after the `n`th message for it, except for columns
    /// whose values are lost in one of the known ways: with the numbers of the lost changes.
    fn same(&self, t: usize, o: usize, n: Option<usize>, have: &Rows, skip: &BTreeSet<Key>) -> Option<Vec<(u32, &'static str)>> {
        let (none, no_cells) = (Rows::new(), Cells::new());
        let (want, cells) = n.map_or((&none, &no_cells), |n| (&self.sources[o].states[t][n].1, &self.sources[o].cells[t][n].1));
        let before = if self.redelivered.get() { None } else { self.at.borrow()[t][o] };
        let mut lost = vec![];
        for k in have.keys().filter(|k| !skip.contains(k) && !want.contains_key(k)) {
            // a row that was there already, and that is added and removed again by changes flushed together
            if self.left_over(t, o, n, *k) {
                lost.push((0, "row-left-after-repeat"));
            } else {
                return None;
            }
        }
        for (k, w) in want.iter().filter(|x| !skip.contains(x.0)) {
            let h = have.get(k)?;
            for c in 0..VALUES {
                if h[c] == w[c] {
                    continue;
                }
                let x = cells[k][c];
                if self.lost.borrow().contains(&(t, o, x.id)) {
                    continue;
                }
                // flushed together with a later change of the row that kept the column
                if x.moved {
                    lost.push((x.id, "value-lost-by-move"));
                } else if x.kept.is_some_and(|k| k > x.at) && before.is_none_or(|b| x.at > b) {
                    lost.push((x.id, if x.flagged { "value-lost-by-keeping" } else { "value-lost-by-omitting" }));
                } else {
                    return None;
                }
            }
        }
        Some(lost)
    }
    /// Whether table `t` has all that origin `o` sent for it.
    fn settled(&self, t: usize, o: usize) -> bool {
        let n = self.sources[o].states[t].len();
        n == 0 || self.same(t, o, Some(n - 1), &self.owned(t, o), &BTreeSet::new()).is_some()
    }
    /// Whether the messages up to the `n`th state add a row with this key and remove it again, and may be applied
    /// for the second time.
    fn left_over(&self, t: usize, o: usize, n: Option<usize>, k: Key) -> bool {
        let Some(n) = n else { return false };
        let upto = self.sources[o].states[t][n].0;
        if !self.redelivered.get() && asim::with(|w| !w.stats.keys().any(|k| k == "fault:put fails after taking effect")).unwrap() {
            return false;
        }
        let changes = self.sources[o].msgs[..=upto].iter().filter(|m| m.table as usize == t).flat_map(|m| m.rows.iter());
        let mut added = false;
        for c in changes {
            if c.old == Some(k) && c.new != Some(k) && added {
                return true;
            }
            added |= c.new == Some(k) && c.old != Some(k);
        }
        false
    }
    fn note_lost(&self, t: usize, o: usize, lost: Vec<(u32, &'static str)>, what: String) {
        for (id, kind) in lost {
            asim::note(format!("        {kind}: {what}"));
            asim::count(&format!("known: {kind}"));
            self.lost.borrow_mut().insert((t, o, id));
            self.lost_kinds.borrow_mut().entry(kind).or_insert(what.clone());
        }
    }
    /// A commit happened: compare with the sources.
    fn committed(&self) {
        let new = match self.reader.borrow_mut().poll(&self.store, self.plan.composite) {
            Ok(n) => n,
            Err(e) => {
                self.fail(&["R01", "R02", "R03", "R04"], "unreadable", e);
                return;
            }
        };
        for (name, rows) in new {
            let Some(t) = name.strip_prefix('t').and_then(|n| n.parse::<usize>().ok()) else { continue };
            let version = self.reader.borrow().tables[&name].0;
            asim::note(format!("        {name} version {version}: {}", show(&rows)));
            asim::count("commits");
            let mut map = Rows::new();
            for (k, r) in rows {
                if map.insert(k, r).is_some() {
                    self.fail(&["R02", "R03", "R04"], "duplicate-rows", format!("version {version} of {name} has several rows with key {k:?}"));
                }
            }
            self.rows.borrow_mut()[t] = map;
            for o in 0..self.sources.len() {
                let have = self.owned(t, o);
                let states = &self.sources[o].states[t];
                let upto = self.frontier.borrow()[o];
                let from = if self.redelivered.get() { None } else { self.at.borrow()[t][o] };
                let may: Vec<usize> = (0..states.len()).rev().filter(|n| states[*n].0 < upto && from.is_none_or(|f| states[*n].0 >= f)).collect();
                // the same contents may come back: the first is what is surely there, the last what may be
                let mut hit = may.iter().rev().find(|n| states[**n].1 == have).map(|n| states[*n].0);
                let mut latest = may.iter().find(|n| states[**n].1 == have).map(|n| states[*n].0);
                if have.is_empty() && from.is_none() {
                    // nothing there yet
                    hit = None;
                } else if hit.is_none() {
                    // the fewest losses that explain it
                    let best = may.iter().filter_map(|n| self.same(t, o, Some(*n), &have, &BTreeSet::new()).map(|l| (l.len(), *n, l))).min_by_key(|x| (x.0, usize::MAX - x.1));
                    if let Some((_, n, lost)) = best {
                        hit = Some(states[n].0);
                        latest = hit;
                        self.note_lost(t, o, lost, format!("version {version} of {name} holds {} of origin{o}; up to message #{} its changes leave {}", show_map(&have), states[n].0, show_map(&states[n].1)));
                    }
                }
                if hit.is_none() && !self.redelivered.get() && !(have.is_empty() && from.is_none()) {
                    let of: Vec<String> = states.iter().filter(|s| s.0 < upto).map(|s| format!("#{}: {}", s.0, show_map(&s.1))).collect();
                    self.fail(
                        &["R02", "R04"],
                        "not-a-prefix",
                        format!("version {version} of {name} holds {} of origin{o}, which is what none of its changes leaves; after each message: {}", show_map(&have), of.join("; ")),
                    );
                }
                if !(have.is_empty() && hit.is_none()) || self.redelivered.get() {
                    self.at.borrow_mut()[t][o] = hit;
                }
                self.upto.borrow_mut()[t][o] = latest;
                self.since.borrow_mut().retain(|(t2, o2), (m, _)| !(*t2 == t && *o2 == o && latest.is_some_and(|h| h >= *m)));
            }
            let position = self.reader.borrow().positions[&name].last().cloned().flatten();
            self.positioned(t, version, position);
        }
    }
    /// The position a commit records is never ahead of what the table holds, is not lost again, and says whether
    /// the table is ahead of it.
    fn positioned(&self, t: usize, version: i64, p: Option<(String, u64, bool)>) {
        let was = std::mem::replace(&mut self.position.borrow_mut()[t], p.clone());
        let Some((origin, n, new_tx)) = p else {
            if let Some(w) = was {
                self.fail(&["R06"], "position-lost", format!("version {version} of t{t} records no position; an earlier one recorded {w:?}"));
            }
            return;
        };
        asim::count("positions checked");
        let o = origin.strip_prefix("origin").and_then(|o| o.parse::<usize>().ok()).filter(|o| *o < self.sources.len());
        let last = o.and_then(|o| self.sources[o].msgs.iter().rposition(|m| m.seq == Some(n)));
        let (Some(o), Some(last)) = (o, last) else {
            self.fail(&["R06"], "position-unknown", format!("version {version} of t{t} records {origin} at {n}, which was never sent"));
            return;
        };
        // changes that are received again take the contents back for a while
        if self.redelivered.get() {
            return;
        }
        let src = &self.sources[o];
        let upto = self.frontier.borrow()[o];
        let touched: BTreeSet<Key> = src.msgs[last + 1..upto.max(last + 1)].iter().filter(|m| m.table as usize == t).flat_map(|m| m.rows.iter().flat_map(|r| [r.old, r.new])).flatten().collect();
        let at = src.states[t].iter().rposition(|s| s.0 <= last);
        let have = self.owned(t, o);
        if last >= upto || self.same(t, o, at, &have, &touched).is_none() {
            let want = at.map(|n| src.states[t][n].1.clone()).unwrap_or_default();
            self.fail(&["R06"], "position-ahead", format!("version {version} of t{t} records {origin} at {n}, but holds {} where its changes leave {} (rows {touched:?} are changed later)", show_map(&have), show_map(&want)));
        }
        if let Some((w, m, _)) = &was {
            if *w == origin && *m > n {
                self.fail(&["R06"], "position-backwards", format!("version {version} of t{t} records {origin} at {n}, an earlier one recorded {m}"));
            }
        }
        let (hit, latest) = (self.at.borrow()[t][o], self.upto.borrow()[t][o]);
        if !new_tx && hit.is_some_and(|h| h > last) {
            self.fail(&["R06"], "position-behind", format!("version {version} of t{t} records {origin} at {n} and no later transaction, but holds its message #{}", hit.unwrap()));
        }
        // with several sources the last message may be another one's
        if let Some(h) = hit
            && self.sources.len() == 1
            && hit == latest
            && let Some(s) = src.msgs[h].seq
            && (s != n || new_tx)
        {
            self.fail(&["R06"], "position-behind", format!("version {version} of t{t} records {origin} at {n}{}, but holds all up to {s} and nothing later", if new_tx { " and a part of the next transaction" } else { "" }));
        }
    }
    /// What is reported durable has to be stored.
    fn durable(&self, o: usize, n: u64) {
        let src = &self.sources[o];
        let Some(last) = src.msgs.iter().rposition(|m| m.seq == Some(n)) else {
            self.fail(&["R01", "R04"], "unknown-sequence", format!("origin{o} is told that {n} is durable, which it never sent"));
            return;
        };
        asim::count("durable reports checked");
        let upto = self.frontier.borrow()[o];
        for t in 0..self.plan.tables as usize {
            // rows that no later message touches
            let touched: BTreeSet<Key> = src.msgs[last + 1..upto.max(last + 1)].iter().filter(|m| m.table as usize == t).flat_map(|m| m.rows.iter().flat_map(|r| [r.old, r.new])).flatten().collect();
            let at = src.states[t].iter().rposition(|s| s.0 <= last);
            let want = at.map(|n| src.states[t][n].1.clone()).unwrap_or_default();
            let have = self.owned(t, o);
            let what = format!("origin{o} is told that {n} is durable, but t{t} holds {} where its changes leave {} (rows {touched:?} are changed later)", show_map(&have), show_map(&want));
            match self.same(t, o, at, &have, &touched) {
                None => self.fail(&["R01", "R03", "R04"], "durable-lost", what),
                Some(lost) => self.note_lost(t, o, lost, what),
            }
            // all of its transactions up to this one
            if !self.redelivered.get() {
                if let Some(need) = src.states[t].iter().rev().map(|s| s.0).find(|m| *m <= last) {
                    let there = (0..src.states[t].len()).filter(|n| src.states[t][*n].0 >= need && src.states[t][*n].0 < upto).any(|n| self.same(t, o, Some(n), &have, &BTreeSet::new()).is_some());
                    if !there {
                        self.fail(&["R01", "R04"], "durable-lost", format!("origin{o} is told that {n} is durable, but t{t} lacks its message #{need}"));
                    }
                }
            }
        }
    }
    /// Every answer carries the two sequence numbers.
    fn answered(&self, o: usize, r: &DataSyncResponse, memory: Option<u64>) {
        if !r.accepted {
            return;
        }
        self.committed();
        let old = self.told.borrow()[o].clone();
        if r.memory_sequence_number < old.memory || r.durable_sequence_number < old.durable {
            self.fail(
                &["R04", "R01"],
                "sequence-backwards",
                format!("origin{o} was told memory {:?}, durable {:?}, and later {:?}, {:?}", old.memory, old.durable, r.memory_sequence_number, r.durable_sequence_number),
            );
        }
        if r.memory_sequence_number != memory {
            self.fail(&["R04", "R02"], "memory-sequence", format!("origin{o} is told memory {:?}; the last transaction it completed is {memory:?}", r.memory_sequence_number));
        }
        if r.durable_sequence_number > r.memory_sequence_number {
            self.fail(&["R01", "R04"], "durable-beyond-memory", format!("origin{o}: durable {:?}, memory {:?}", r.durable_sequence_number, r.memory_sequence_number));
        }
        let mut told = self.told.borrow_mut();
        told[o] = Told { memory: r.memory_sequence_number, durable: r.durable_sequence_number };
        drop(told);
        if let Some(n) = r.durable_sequence_number {
            if r.durable_sequence_number != old.durable {
                self.durable(o, n);
            }
            let mut s = self.safe.borrow_mut();
            s[o] = s[o].max(Some(n));
        }
    }
}
fn show(rows: &[(Key, Row)]) -> String {
    let v: Vec<String> = rows.iter().map(|(k, r)| format!("{}.{}=({})", k.0, k.1, r.iter().map(|x| x.clone().unwrap_or("-".into())).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", v.join(" "))
}
fn show_map(r: &Rows) -> String {
    show(&r.iter().map(|(k, v)| (*k, v.clone())).collect::<Vec<_>>())
}

#[derive(Clone, Default)]
pub struct Gauges(Arc<std::sync::Mutex<BTreeMap<String, Arc<metrics::atomics::AtomicU64>>>>);
impl Gauges {
    fn get(&self, name: &str) -> f64 {
        let m = self.0.lock().unwrap();
        m.get(name).map(|a| f64::from_bits(a.load(std::sync::atomic::Ordering::SeqCst))).unwrap_or(f64::NAN)
    }
    fn reset(&self) {
        self.0.lock().unwrap().clear();
    }
}
impl metrics::Recorder for Gauges {
    fn describe_counter(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn describe_gauge(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn describe_histogram(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn register_counter(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Counter {
        metrics::Counter::noop()
    }
    fn register_gauge(&self, key: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Gauge {
        let name = key.name().to_string() + &key.labels().map(|l| format!(" {}", l.value())).collect::<String>();
        let a = self.0.lock().unwrap().entry(name).or_insert_with(|| Arc::new(metrics::atomics::AtomicU64::new(0))).clone();
        metrics::Gauge::from_arc(a)
    }
    fn register_histogram(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Histogram {
        metrics::Histogram::noop()
    }
}
const BYTES: &str = "seafowl_changeset_writer_in_memory_bytes_current";
const ROWS: &str = "seafowl_changeset_writer_in_memory_rows_current";

async fn source(o: usize, f: Flight, sh: Rc<Shared>) {
    let me = format!("origin{o}");
    let src = &sh.sources[o];
    let mut memory: Option<u64> = None;
    let mut tries = 0;
    let mut held_up = 0u64;
    loop {
        if sh.bad.borrow().is_some() {
            return;
        }
        let i = sh.next.borrow()[o];
        let Some(m) = src.msgs.get(i) else { break };
        let pause = m.msg.pause_ms;
        if pause > 0 && tries == 0 && held_up == 0 {
            tokio::time::sleep(Duration::from_millis(pause as u64)).await;
        }
        tries += 1;
        if tries > 400 {
            let e = sh.last_error.borrow().clone();
            sh.fail(&["R02", "R03", "R04"], "refused", format!("message #{i} of {me} is refused again and again: {e}"));
            return;
        }
        let (cmd, batches) = encode(&sh.plan, o, m);
        let fr = sh.frontier.borrow()[o];
        sh.frontier.borrow_mut()[o] = fr.max(i + 1);
        sh.sent.set(sh.sent.get() + 1);
        if let Some(j) = sh.plan.jumps.iter().find(|j| j.0 == sh.sent.get()) {
            asim::note(format!("        the clock jumps by {} s", j.1));
            asim::count("fault:clock jumps");
            asim::sys::jump_wall_clock_us(j.1 as i64 * 1_000_000);
            if j.1 < 0 {
                sh.back_s.set(sh.back_s.get() + (-j.1) as u64);
            }
        }
        asim::note(format!("        {me} sends #{i} t{} {} seq {:?}", m.table, m.rows.iter().map(|r| format!("{:?}->{:?}{:?}", r.old, r.new, r.vals)).collect::<Vec<_>>().join(" "), m.seq));
        asim::count("messages sent");
        let single = m.opens && m.seq.is_some();
        let call = f.put(cmd, batches);
        let r = if m.msg.abandon_ms > 0 && single && tries == 1 {
            match tokio::time::timeout(Duration::from_millis(m.msg.abandon_ms as u64), call).await {
                Ok(r) => Some(r),
                Err(_) => None,
            }
        } else {
            Some(call.await)
        };
        match r {
            Some(Ok(r)) => {
                asim::note(format!("        {me} #{i}: {r:?}"));
                if !r.accepted {
                    asim::count("messages put off");
                    tries -= 1;
                    held_up += 1;
                    tokio::time::sleep(Duration::from_millis(200 * held_up.min(100))).await;
                    continue;
                }
                if m.seq.is_some() {
                    memory = m.seq;
                }
                if !m.rows.is_empty() {
                    let t = m.table as usize;
                    sh.committed();
                    if sh.upto.borrow()[t][o].is_none_or(|u| u < i) {
                        sh.since.borrow_mut().entry((t, o)).or_insert((i, asim::sys::elapsed_us()));
                    }
                }
                sh.answered(o, &r, memory);
                limits(&sh, o, i);
                sh.next.borrow_mut()[o] = i + 1;
                tries = 0;
                held_up = 0;
            }
            Some(Err(s)) => {
                asim::note(format!("        {me} #{i}: {:?} {}", s.code(), s.message()));
                let m = s.message();
                *sh.last_error.borrow_mut() = m.to_string();
                if m.contains("without finishing the transaction") {
                    // it is the other origin's turn
                    asim::count("messages put off");
                    tries -= 1;
                    held_up += 1;
                    tokio::time::sleep(Duration::from_millis(1000 * held_up.min(60))).await;
                    continue;
                } else {
                    asim::count("messages refused");
                    if sh.quiet() {
                        sh.fail(&["R02", "R04"], "error-without-fault", format!("message #{i} of {me} is refused: {m}"));
                    }
                }
                tokio::time::sleep(Duration::from_millis(500)).await;
            }
            None => {
                // connection lost: ask what arrived
                asim::count("fault:connection lost");
                asim::note(format!("        {me} #{i}: connection lost"));
                loop {
                    match probe(&f, o).await {
                        Ok(r) => {
                            if r.memory_sequence_number == m.seq {
                                memory = m.seq;
                                sh.answered(o, &r, memory);
                                sh.next.borrow_mut()[o] = i + 1;
                                tries = 0;
                            } else {
                                sh.answered(o, &r, memory);
                            }
                            asim::note(format!("        {me} #{i}: after asking {r:?}"));
                            break;
                        }
                        Err(_) => tokio::time::sleep(Duration::from_millis(500)).await,
                    }
                }
            }
        }
    }
}

/// An answer after which nothing may be left in memory.
fn limits(sh: &Shared, o: usize, i: usize) {
    let p = &sh.plan;
    if !sh.quiet() {
        return;
    }
    let bytes = sh.gauges.get(BYTES);
    if bytes >= p.max_bytes as f64 {
        sh.fail(&["R05"], "over-limit", format!("{bytes} bytes are queued after a message was accepted, the limit is {}", p.max_bytes));
    }
    let m = &sh.sources[o].msgs[i];
    if (p.max_bytes <= 1 || p.max_syncs <= 1) && !m.rows.is_empty() && sh.since.borrow().contains_key(&(m.table as usize, o)) {
        sh.fail(&["R05"], "over-limit", format!("message #{i} of origin{o} stays queued with a limit of {} bytes and {} items", p.max_bytes, p.max_syncs));
    }
    asim::count("limits checked");
}

async fn life(sh: Rc<Shared>) {
    let p = &sh.plan;
    sh.gauges.reset();
    let conf = srv::Conf {
        max_partition_size: p.partition,
        sync: DataSyncConfig {
            max_in_memory_bytes: p.max_bytes,
            max_replication_lag_s: p.lag_s,
            max_syncs_per_url: p.max_syncs,
            write_lock_timeout_s: p.lock_s,
            flush_task_interval_s: p.interval_s,
        },
    };
    let ctx = Arc::new(srv::context(&sh.store, None, &conf).await);
    let f = Flight::new(ctx);
    asim::with(|w| {
        w.faults = Faults { rates: vec![("get", p.faults, 300), ("head", p.faults, 0), ("list", p.faults, 300), ("", p.faults, 500)], budget: p.budget };
    });
    let flusher = asim::spawn_client("flusher".into(), f.flush_loop());
    let hs: Vec<_> = (0..sh.sources.len()).map(|o| asim::spawn_client(format!("origin{o}"), source(o, f.clone(), sh.clone()))).collect();
    for h in hs {
        if h.await.is_err() {
            sh.fail(&["R01", "R02", "R03", "R04", "R05", "R06"], "panic", "processing a message panicked".into());
        }
    }
    if sh.bad.borrow().is_some() {
        return;
    }
    asim::calm();
    asim::note("        all sent, faults end");
    let bound = p.lag_s + 2 * p.interval_s + sh.back_s.get() + 10;
    let t0 = asim::sys::elapsed_us();
    let all = |sh: &Shared| (0..p.tables as usize).all(|t| (0..sh.sources.len()).all(|o| sh.settled(t, o)));
    loop {
        sh.committed();
        if sh.bad.borrow().is_some() {
            return;
        }
        let queued = sh.gauges.get(BYTES);
        if queued == 0.0 && all(&sh) {
            break;
        }
        if flusher.is_finished() {
            sh.fail(&["R01", "R02", "R03", "R04", "R05", "R06"], "panic", "the flush task panicked".into());
            return;
        }
        if asim::sys::elapsed_us() - t0 > bound * 1_000_000 {
            break;
        }
        tokio::time::sleep(Duration::from_millis(700)).await;
    }
    // nothing is left
    let names = |sh: &Shared| -> Option<String> {
        for t in 0..p.tables as usize {
            for (o, s) in sh.sources.iter().enumerate() {
                let have = sh.owned(t, o);
                if let Some(w) = s.states[t].last() {
                    if !sh.settled(t, o) {
                        return Some(format!("t{t} holds {} of origin{o}; its changes leave {}", show_map(&have), show_map(&w.1)));
                    }
                }
            }
        }
        None
    };
    let (bytes, rows) = (sh.gauges.get(BYTES), sh.gauges.get(ROWS));
    asim::note(format!("        settled: {bytes} bytes, {rows} rows queued"));
    if let Some(d) = names(&sh) {
        if bytes != 0.0 {
            sh.fail(&["R05", "R04", "R02", "R03"], "not-flushed", format!("{} s after the last fault (lag {} s, flushed every {} s) {bytes} bytes are still queued: {d}", bound, p.lag_s, p.interval_s));
        }
        sh.fail(&["R02", "R03", "R04"], "final-contents", d);
        sh.finished.set(true);
        return;
    }
    asim::count("runs that ended with the right contents");
    if bytes != 0.0 || rows != 0.0 {
        sh.fail(&["R05"], "accounting", format!("everything is flushed, yet {bytes} bytes and {rows} rows are said to be queued"));
    }
    for o in 0..sh.sources.len() {
        let told = sh.told.borrow()[o].memory;
        match probe(&f, o).await {
            Ok(r) => {
                sh.answered(o, &r, told);
                let last = sh.sources[o].msgs.last().and_then(|m| m.seq);
                if told == last && r.durable_sequence_number != last {
                    sh.fail(&["R05", "R04"], "durable-behind", format!("everything is flushed, yet origin{o} is told that {:?} is durable instead of {last:?}", r.durable_sequence_number));
                }
            }
            Err(e) => sh.fail(&["R04"], "error-without-fault", format!("asking for sequence numbers fails: {e}")),
        }
    }
    sh.finished.set(true);
    flusher.abort();
}

pub fn run(prop: &str, p: &Plan, d: Decider) -> RunResult {
    let (prop, p) = (prop.to_string(), p.clone());
    let res = asim::isolated(move || {
        let mut res = RunResult::default();
        let _scratch = srv::Scratch::new();
        asim::begin(d);
        let sources: Vec<Source> = (0..p.origins.len()).map(|o| compile(&p, o)).collect();
        let features: BTreeSet<&str> = sources.iter().flat_map(|s| s.features.iter().cloned()).collect();
        let gauges = Gauges::default();
        let n = sources.len();
        let sh = Rc::new(Shared {
            prop,
            features: features.iter().map(|f| format!("+{f}")).collect(),
            bad: RefCell::new(None),
            store: SimStore::new(""),
            reader: Default::default(),
            gauges: gauges.clone(),
            life: Cell::new(0),
            next: RefCell::new(vec![0; n]),
            frontier: RefCell::new(vec![0; n]),
            safe: RefCell::new(vec![None; n]),
            told: RefCell::new(vec![Told::default(); n]),
            rows: RefCell::new(vec![Rows::new(); p.tables as usize]),
            at: RefCell::new(vec![vec![None; n]; p.tables as usize]),
            position: RefCell::new(vec![None; p.tables as usize]),
            lost: Default::default(),
            lost_kinds: Default::default(),
            upto: RefCell::new(vec![vec![None; n]; p.tables as usize]),
            redelivered: Cell::new(p.origins.iter().flatten().any(|m| m.abandon_ms > 0)),
            sent: Cell::new(0),
            last_error: Default::default(),
            back_s: Cell::new(0),
            since: Default::default(),
            finished: Cell::new(false),
            flights: Default::default(),
            sources,
            plan: p.clone(),
        });
        let cfg = asim::Config { sticky: p.sticky, stall: p.stall, stall_ms: p.stall_ms.clone(), max_steps: 60_000 };
        metrics::with_local_recorder(&gauges, || loop {
            let (s2, s3) = (sh.clone(), sh.clone());
            let life_no = sh.life.get();
            let crash = p.crashes.get(life_no).cloned();
            let mut steps = 0u64;
            let end = asim::run(&cfg, async move { life(s2).await }, move || {
                steps += 1;
                s3.committed();
                aged(&s3);
                s3.bad.borrow().is_none() && crash.is_none_or(|c| steps < c)
            });
            if sh.bad.borrow().is_some() {
                break;
            }
            match end {
                End::Stopped => {
                    asim::note("        CRASH");
                    asim::count("fault:crash");
                    sh.life.set(life_no + 1);
                    sh.redelivered.set(true);
                    sh.since.borrow_mut().clear();
                    for (o, s) in sh.sources.iter().enumerate() {
                        let safe = sh.safe.borrow()[o];
                        let from = safe.and_then(|n| s.msgs.iter().rposition(|m| m.seq == Some(n))).map(|i| i + 1).unwrap_or(0);
                        sh.next.borrow_mut()[o] = from;
                        sh.told.borrow_mut()[o] = Told::default();
                        if let Some(n) = safe {
                            sh.durable(o, n);
                        }
                    }
                }
                End::Done => {
                    if !sh.finished.get() {
                        sh.fail(&["R01", "R02", "R03", "R04", "R05", "R06"], "panic", "the server panicked".into());
                    }
                    break;
                }
                End::Stuck => {
                    sh.fail(&["R04", "R05", "R02"], "hang", "nothing can go on, yet not everything is answered".into());
                    break;
                }
                End::Endless => {
                    sh.fail(&["R04", "R05", "R02"], "hang", "not finished within 60000 steps".into());
                    break;
                }
            }
        });
        let w = asim::end();
        let lost = if matches!(sh.prop.as_str(), "R05" | "R06") { None } else { Some(()) };
        res.violation = sh.bad.borrow().clone().or_else(|| lost.and_then(|_| sh.lost_kinds.borrow().iter().next().map(|(k, d)| Violation { kind: k.to_string(), detail: d.clone() })));
        res.nontrivial = sh.sent.get() > 1 && *w.stats.get("commits").unwrap_or(&0) > 0;
        res.stats = w.stats;
        res.states = w.states;
        res.log = w.log;
        res.steps = w.steps;
        res.decisions = w.d.log;
        res.sim_us = asim::sys::elapsed_us();
        res
    });
    match res {
        Ok(r) => r,
        Err(e) => {
            let what = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness panicked: {what}");
            std::process::abort()
        }
    }
}

/// Without faults nothing stays queued for long.
fn aged(sh: &Shared) {
    if !sh.quiet() {
        return;
    }
    let p = &sh.plan;
    let now = asim::sys::elapsed_us();
    let bound = (p.lag_s + p.interval_s + sh.back_s.get() + 10) * 1_000_000 + p.lock_s * 1_000_000;
    let old = sh.since.borrow().iter().find(|(_, v)| now.saturating_sub(v.1) > bound).map(|(k, v)| (*k, *v));
    if let Some(((t, o), (m, since))) = old {
        sh.fail(&["R05"], "not-flushed", format!("message #{m} of origin{o} for t{t} is queued for {} s; lag {} s, flushed every {} s", (now - since) / 1_000_000, p.lag_s, p.interval_s));
    }
}

pub fn gen(prop: &str, rng: &mut Rng, i: u64, thorough: bool) -> Plan {
    let tables = *rng.pick(&[1u8, 1, 2, 3]);
    let no = if rng.chance(350) { 2 } else { 1 };
    let composite = rng.chance(200);
    let keys = rng.range(2, 7) as u8;
    let style = rng.below(10);
    let orders = *rng.pick(&[0u8, 0, 3]);
    let abandon = prop == "R04" && i % 4 == 3;
    let pauses = *rng.pick(&[[0u32, 0, 100], [0, 3000, 40_000], [0, 0, 700_000]]);
    let biased = rng.chance(300);
    let origins = (0..no)
        .map(|_| {
            let n = rng.range(2, if thorough { 14 } else { 9 });
            (0..n)
                .map(|_| {
                    let k = if biased { rng.range(1, 3) } else { rng.range(0, 6) };
                    let key = |rng: &mut Rng| (rng.below(keys as u64) as u8, rng.below(3) as u8);
                    let steps = (0..k)
                        .map(|_| {
                            let key0 = key(rng);
                            let mut to = key(rng);
                            match rng.below(3) {
                                0 => to.0 = key0.0,
                                1 => to.1 = key0.1,
                                _ => {}
                            }
                            Step { act: [Act::Ins, Act::Upd, Act::Del, Act::Mov][rng.weighted(&[5, 4, 2, 2])], key: key0, to, vals: rng.next() as u32 }
                        })
                        .collect();
                    let mut cols = [0; VALUES];
                    match style {
                        0 | 1 => cols.iter_mut().for_each(|c| *c = rng.below(2) as u8),
                        2 | 3 => cols.iter_mut().for_each(|c| *c = rng.below(3) as u8),
                        4 => cols.iter_mut().for_each(|c| *c = 2 * rng.below(2) as u8),
                        5 => cols = [1; VALUES],
                        _ => {}
                    }
                    Msg {
                        table: rng.below(tables as u64) as u8,
                        steps,
                        close: rng.chance(600),
                        cols,
                        order: if orders == 0 { 0 } else { rng.below(orders as u64) as u8 },
                        split: *rng.pick(&[0, 0, 1, 2]),
                        pause_ms: *rng.pick(&pauses),
                        abandon_ms: if abandon && rng.chance(400) { rng.range(1, 30) as u32 } else { 0 },
                    }
                })
                .collect()
        })
        .collect();
    let faulty = match prop {
        "R04" => !abandon || rng.chance(300),
        "R01" => rng.chance(400),
        "R03" => rng.chance(250),
        "R05" | "R06" => rng.chance(300),
        _ => false,
    };
    let crashes = match prop {
        "R03" => (0..rng.range(1, if thorough { 5 } else { 4 })).map(|_| rng.range(5, 160)).collect(),
        "R01" | "R06" if rng.chance(400) => vec![rng.range(5, 200)],
        _ => vec![],
    };
    let lag_s = *rng.pick(&[1u64, 10, 60, 600]);
    let interval_s = *rng.pick(&[1u64, 7, 30, 900]);
    let stalled = !matches!(prop, "R05") || rng.chance(300);
    Plan {
        tables,
        composite,
        origins,
        max_bytes: match rng.below(5) {
            0 => 1,
            1 => rng.range(500, 3000) as usize,
            2 => rng.range(3000, 20000) as usize,
            _ => 100 << 20,
        },
        lag_s,
        max_syncs: *rng.pick(&[1, 2, 3, 100, 100]),
        lock_s: *rng.pick(&[1, 3]),
        interval_s,
        partition: *rng.pick(&[1, 2, 3, 5, 1000]),
        crashes,
        faults: if faulty { *rng.pick(&[20, 80, 250]) } else { 0 },
        budget: *rng.pick(&[1, 2, 5, 20]),
        sticky: *rng.pick(&[0, 0, 400, 800]),
        stall: if stalled { *rng.pick(&[0, 0, 20, 100]) } else { 0 },
        stall_ms: vec![10, 1100, 4000, lag_s * 1000 + 50],
        jumps: if rng.chance(if prop == "R05" { 500 } else { 150 }) { (0..rng.range(1, 3)).map(|_| (rng.range(1, 10) as u32, *rng.pick(&[-3600, -700, -5, -1, 1, 5, 700, 100_000]))).collect() } else { vec![] },
    }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let same = serde_json::to_string(p).unwrap();
    let mut add = |q: Plan| {
        if serde_json::to_string(&q).unwrap() != same {
            v.push(q)
        }
    };
    if p.origins.len() > 1 {
        for i in 0..p.origins.len() {
            let mut q = p.clone();
            q.origins.remove(i);
            add(q);
        }
    }
    for f in [
        |q: &mut Plan| q.stall = 0,
        |q: &mut Plan| q.faults = 0,
        |q: &mut Plan| q.budget = 1,
        |q: &mut Plan| q.sticky = 0,
        |q: &mut Plan| q.jumps.clear(),
        |q: &mut Plan| {
            q.crashes.pop();
        },
        |q: &mut Plan| q.tables = 1,
        |q: &mut Plan| q.composite = false,
        |q: &mut Plan| q.origins.iter_mut().flatten().for_each(|m| m.cols = [0; VALUES]),
        |q: &mut Plan| q.origins.iter_mut().flatten().for_each(|m| m.order = 0),
        |q: &mut Plan| q.origins.iter_mut().flatten().for_each(|m| m.split = 0),
        |q: &mut Plan| q.origins.iter_mut().flatten().for_each(|m| m.pause_ms = 0),
        |q: &mut Plan| q.origins.iter_mut().flatten().for_each(|m| m.abandon_ms = 0),
        |q: &mut Plan| q.origins.iter_mut().flatten().for_each(|m| m.close = true),
        |q: &mut Plan| q.max_bytes = 100 << 20,
        |q: &mut Plan| q.max_syncs = 100,
        |q: &mut Plan| q.partition = 1000,
    ] {
        let mut q = p.clone();
        f(&mut q);
        add(q);
    }
    for i in 0..p.origins.len() {
        for j in 0..p.origins[i].len() {
            let mut q = p.clone();
            q.origins[i].remove(j);
            add(q);
        }
    }
    for i in 0..p.origins.len() {
        for j in 0..p.origins[i].len() {
            for k in 0..p.origins[i][j].steps.len() {
                let mut q = p.clone();
                q.origins[i][j].steps.remove(k);
                add(q);
            }
            for c in 0..VALUES {
                let mut q = p.clone();
                q.origins[i][j].cols[c] = 0;
                add(q);
            }
        }
    }
    v
}

pub fn meta(prop: &str) -> Meta {
    Meta {
        level: "exploration",
        quick_runs: 2_000_000,
        thorough_runs: 100_000_000,
        quick_secs: 45,
        thorough_secs: 3000,
        batch: 60,
        rule: "runs in which several messages were sent and at least one flush committed".into(),
        state_measure: "hash of the sequence of operations (object store requests, task starts) and their outcomes so far, at every step".into(),
        real: vec![
            "src/sync, src/frontend/flight, src/context, src/config/context.rs, src/object_store/wrapped.rs (all of /repo/src compiled from the working tree, but src/context/iceberg.rs)",
            "arrow-flight encoding, tonic service (in process), DataFusion 44, parquet, object_store InMemory and PrefixStore",
        ],
        stub: vec![
            "deltalake (a stand-in written for this: log, snapshot, commits with conflict detection, scans)",
            "order of all asynchronous operations, task starts, time and wall clock (simulated tokio)",
            "object store faults: refused requests, bodies cut off, lost answers; crashes of the server; lost connections",
        ],
        assumptions: vec![
            "a source sends its messages in order, waits for each answer, sends a message again if it was refused, and after a restart of the server continues behind the last sequence number it was told is durable".into(),
            "origins own disjoint keys; columns left out or flagged unchanged occur in updates only".into(),
            "compiled without overflow checks, as the release profile is".into(),
        ],
        probes: match prop {
            "R01" => vec!["commits", "durable reports checked", "fault:crash"],
            "R03" => vec!["commits", "fault:crash", "runs that ended with the right contents"],
            "R04" => vec!["commits", "fault:put fails", "fault:connection lost", "runs that ended with the right contents"],
            "R06" => vec!["commits", "positions checked", "fault:crash"],
            "R05" => vec!["commits", "limits checked", "fault:clock jumps"],
            _ => vec!["commits", "runs that ended with the right contents"],
        },
    }
}
