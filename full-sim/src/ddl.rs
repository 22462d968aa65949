//! Clients that create, rename and drop schemas and tables, each in schemas of its own, on servers that
//! share one object store and one catalog; clean-ups of dropped tables beside them.
use crate::cat::Host;
use crate::dml::{query, row, server, show, to_rows, values, Row, Rows};
use crate::srv;
use asim::store::SimStore;
use asim::{End, Faults};
use seafowl::context::SeafowlContext;
use seafowl::repository::interface::{DroppedTableDeletionStatus as Status, Repository};
use serde::{Deserialize, Serialize};
use simcore::{Decider, Meta, Rng, RunResult, Violation};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

type T = (u8, u8);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Stmt {
    CreateSchema(u8, bool),
    DropSchema(u8, bool),
    Create(T, bool),
    Ctas(T, Rows, bool),
    /// The query fails while it runs.
    BadCtas(T, bool),
    Drop(T, bool),
    Rename(T, T),
    Insert(T, Rows),
    Delete(T),
    Truncate(T),
    Select(T),
    List,
    VacuumDb,
    VacuumTable(T),
    /// As earlier releases did: leave the objects and record the table as dropped.
    OldDrop(T),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    stmt: Stmt,
    pause_ms: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Client {
    server: u8,
    items: Vec<Item>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    servers: u8,
    /// The last one only cleans up and reads if `cleaner`.
    ddl: Vec<Client>,
    cleaner: Option<Client>,
    crashes: Vec<u64>,
    faults: u32,
    budget: u32,
    /// How the store fails to delete, at the end: not at all, listings, deletions.
    stubborn: u8,
    other: bool,
    sticky: u32,
    stall: u32,
    stall_ms: Vec<u64>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct State {
    schemas: BTreeMap<String, BTreeMap<String, Rows>>,
    /// Only reachable through a statement that failed and left something behind.
    flaw: Option<&'static str>,
}
impl State {
    fn show(&self) -> String {
        let v: Vec<String> = self.schemas.iter().map(|(s, ts)| format!("{s}[{}]", ts.iter().map(|(t, r)| format!("{t}{}", show(r))).collect::<Vec<_>>().join(" "))).collect();
        v.join(" ")
    }
    fn has(&self, t: &(String, String)) -> bool {
        self.schemas.get(&t.0).is_some_and(|s| s.contains_key(&t.1))
    }
    fn rows(&mut self, t: &(String, String)) -> Option<&mut Rows> {
        self.schemas.get_mut(&t.0)?.get_mut(&t.1)
    }
}

/// Dropped in another database.
const OTHER: &str = "00000000-0000-4000-8000-0123456789ab";

fn schema(c: usize, s: u8) -> String {
    match (c, s) {
        (0, 0) => "public".into(),
        _ => format!("{}{s}", ["p", "q", "r"][c % 3]),
    }
}
fn table(c: usize, t: T) -> (String, String) {
    (schema(c, t.0), ["a", "ab", "b"][t.1 as usize % 3].to_string())
}
fn sql(c: usize, s: &Stmt) -> String {
    let n = |t: &T| {
        let (s, t) = table(c, *t);
        format!("{s}.{t}")
    };
    let ine = |b: &bool| if *b { "IF NOT EXISTS " } else { "" };
    let ie = |b: &bool| if *b { "IF EXISTS " } else { "" };
    match s {
        Stmt::CreateSchema(k, b) => format!("CREATE SCHEMA {}{}", ine(b), schema(c, *k)),
        Stmt::DropSchema(k, b) => format!("DROP SCHEMA {}{}", ie(b), schema(c, *k)),
        Stmt::Create(t, b) => format!("CREATE TABLE {}{} (id BIGINT, v BIGINT, s VARCHAR)", ine(b), n(t)),
        Stmt::Ctas(t, r, b) => format!("CREATE TABLE {}{} AS SELECT CAST(column1 AS BIGINT) AS id, CAST(column2 AS BIGINT) AS v, CAST(column3 AS VARCHAR) AS s FROM (VALUES {})", ine(b), n(t), values(r)),
        Stmt::BadCtas(t, b) => format!("CREATE TABLE {}{} AS SELECT CAST(column1 AS BIGINT) AS id, CAST(5 / (column1 - 2) AS BIGINT) AS v, CAST(column2 AS VARCHAR) AS s FROM (VALUES (1, 'x'), (2, NULL))", ine(b), n(t)),
        Stmt::Drop(t, b) => format!("DROP TABLE {}{}", ie(b), n(t)),
        Stmt::Rename(t, u) => format!("ALTER TABLE {} RENAME TO {}", n(t), n(u)),
        Stmt::Insert(t, r) => format!("INSERT INTO {} VALUES {}", n(t), values(r)),
        Stmt::Delete(t) => format!("DELETE FROM {} WHERE id > 0", n(t)),
        Stmt::Truncate(t) => format!("TRUNCATE TABLE {}", n(t)),
        Stmt::Select(t) => format!("SELECT id, v, s FROM {}", n(t)),
        Stmt::List => "SELECT table_schema, table_name FROM information_schema.tables".into(),
        Stmt::VacuumDb => "VACUUM DATABASE default".into(),
        Stmt::VacuumTable(t) => format!("VACUUM TABLE {}", n(t)),
        Stmt::OldDrop(t) => format!("(earlier release) DROP TABLE {}", n(t)),
    }
}

/// The state after the statement, if it can succeed.
fn after(c: usize, st: &Stmt, s: &State) -> Option<State> {
    let mut n = s.clone();
    let tab = |t: &T| table(c, *t);
    match st {
        Stmt::CreateSchema(k, ine) => {
            let k = schema(c, *k);
            if n.schemas.contains_key(&k) {
                return ine.then_some(n);
            }
            n.schemas.insert(k, Default::default());
        }
        Stmt::DropSchema(k, ie) => {
            if n.schemas.remove(&schema(c, *k)).is_none() && !ie {
                return None;
            }
        }
        Stmt::Create(t, ine) | Stmt::Ctas(t, _, ine) | Stmt::BadCtas(t, ine) => {
            let t = tab(t);
            if n.has(&t) {
                return ine.then_some(n);
            }
            if let Stmt::BadCtas(..) = st {
                return None;
            }
            let rows = if let Stmt::Ctas(_, r, _) = st { sorted(r) } else { vec![] };
            n.schemas.get_mut(&t.0)?.insert(t.1, rows);
        }
        Stmt::Drop(t, _) | Stmt::OldDrop(t) => {
            let t = tab(t);
            if !n.has(&t) {
                return matches!(st, Stmt::Drop(_, true)).then_some(n);
            }
            n.schemas.get_mut(&t.0).unwrap().remove(&t.1);
        }
        Stmt::Rename(t, u) => {
            let (t, u) = (tab(t), tab(u));
            if !n.has(&t) || (n.has(&u) && t != u) || !n.schemas.contains_key(&u.0) {
                return None;
            }
            let r = n.schemas.get_mut(&t.0).unwrap().remove(&t.1).unwrap();
            n.schemas.get_mut(&u.0).unwrap().insert(u.1, r);
        }
        Stmt::Insert(t, r) => {
            let rows = n.rows(&tab(t))?;
            rows.extend(r.iter().cloned());
            rows.sort();
        }
        Stmt::Delete(t) | Stmt::Truncate(t) => n.rows(&tab(t))?.clear(),
        Stmt::Select(t) | Stmt::VacuumTable(t) => {
            n.rows(&tab(t))?;
        }
        Stmt::List | Stmt::VacuumDb => {}
    }
    Some(n)
}
fn sorted(r: &[Row]) -> Rows {
    let mut r = r.to_vec();
    r.sort();
    r
}
/// What else a statement that fails, or is cut off, may leave.
fn partly(c: usize, st: &Stmt, s: &State, flaw: &'static str) -> Vec<State> {
    match st {
        Stmt::DropSchema(k, _) => {
            let k = schema(c, *k);
            let Some(ts) = s.schemas.get(&k) else { return vec![] };
            let names: Vec<&String> = ts.keys().collect();
            (1..1usize << names.len())
                .map(|m| {
                    let mut n = s.clone();
                    for (i, t) in names.iter().enumerate() {
                        if m >> i & 1 == 1 {
                            n.schemas.get_mut(&k).unwrap().remove(*t);
                        }
                    }
                    n
                })
                .collect()
        }
        Stmt::Ctas(t, ..) | Stmt::BadCtas(t, _) => after(c, &Stmt::Create(*t, false), s)
            .map(|mut n| {
                n.flaw = Some(flaw);
                n
            })
            .into_iter()
            .collect(),
        _ => vec![],
    }
}

#[derive(Clone, Debug)]
struct Snap {
    at: usize,
    live: BTreeSet<String>,
    dropped: BTreeMap<String, u8>,
    /// By whom the catalog was changed.
    by: String,
}
struct Shared {
    plan: Plan,
    bad: RefCell<Option<Violation>>,
    store: SimStore,
    host: Arc<Host>,
    next: RefCell<Vec<usize>>,
    /// What each client's schemas may hold.
    states: RefCell<Vec<BTreeSet<State>>>,
    /// The statement each client is executing.
    pending: RefCell<Vec<Option<usize>>>,
    snaps: RefCell<Vec<Snap>>,
    deletes_seen: Cell<usize>,
    armed: Cell<bool>,
    finished: Cell<bool>,
    /// The final checks have begun: no more crashes.
    ending: Cell<bool>,
    life: Cell<usize>,
}
impl Shared {
    fn fail(&self, kind: &str, detail: String) {
        asim::note(format!("        VIOLATION {kind}: {detail}"));
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(Violation { kind: kind.into(), detail });
        }
    }
    fn objects(&self, uuid: &str) -> Vec<String> {
        futures::executor::block_on(asim::store::contents(&self.store.inner)).into_iter().map(|o| o.0).filter(|p| p.starts_with(&format!("{uuid}/"))).collect()
    }
    /// After every step: whether the lists changed as they may, and nothing is deleted that is needed.
    fn watch(&self) {
        let writes = self.host.writes();
        let news: Vec<String> = writes;
        if !news.is_empty() {
            self.snap(news.join(", "));
        }
        let done = self.store.done.lock().unwrap();
        let snaps = self.snaps.borrow();
        let Some(s) = snaps.last() else { return };
        for d in &done[self.deletes_seen.get()..] {
            if d.kind != "delete" || !d.ok {
                continue;
            }
            let uuid = d.path.split('/').next().unwrap();
            asim::count("deletions checked");
            if uuid == OTHER && d.client.contains("VACUUM DATABASE") {
                self.fail("deleted-elsewhere", format!("{} deletes {}, of another database", d.client, d.path));
            }
            if s.live.contains(uuid) && !d.client.starts_with("vacuum table") {
                self.fail("deleted-in-use", format!("{} deletes {}, of a table the catalog lists", d.client, d.path));
            } else if !snaps.iter().any(|s| s.dropped.contains_key(uuid) || s.live.contains(uuid)) && d.client.contains("VACUUM DATABASE") {
                self.fail("deleted-unrecorded", format!("{} deletes {}, of a table not recorded as dropped", d.client, d.path));
            }
        }
        self.deletes_seen.set(done.len());
    }
    fn snap(&self, by: String) {
        let host = self.host.clone();
        let (live, dropped) = self.host.now(async {
            let l = host.repo.list_collections("default").await.unwrap();
            let d = host.repo.get_dropped_tables(None).await.unwrap();
            (
                l.into_iter().filter_map(|c| c.table_uuid).map(|u| u.to_string()).collect::<BTreeSet<_>>(),
                d.into_iter()
                    .map(|d| {
                        let k = match d.deletion_status {
                            Status::Pending => 0u8,
                            Status::Retry => 1,
                            Status::Failed => 2,
                        };
                        (d.uuid.to_string(), k)
                    })
                    .collect::<BTreeMap<_, _>>(),
            )
        });
        const NAMES: [&str; 3] = ["pending", "retry", "failed"];
        let at = self.store.done.lock().unwrap().len();
        if let Some(p) = self.snaps.borrow().last() {
            asim::count_n("tables dropped", p.live.iter().filter(|u| !live.contains(*u)).count() as u64);
            for (u, k) in &p.dropped {
                match dropped.get(u) {
                    None => {
                        let left = self.objects(u);
                        asim::count("entries removed");
                        if !left.is_empty() {
                            self.fail("forgotten", format!("the entry of dropped table {u} is removed ({by}) and {} objects are left: {:?}", left.len(), left));
                        }
                    }
                    Some(n) if n == k => {}
                    Some(n) => {
                        asim::count(&format!("entry becomes {}", NAMES[*n as usize]));
                        if *n != k + 1 {
                            self.fail("wrong-status", format!("the entry of dropped table {u} goes from {} to {} ({by})", NAMES[*k as usize], NAMES[*n as usize]));
                        }
                    }
                }
            }
            for (u, k) in dropped.iter().filter(|(u, _)| !p.dropped.contains_key(*u)) {
                asim::count("tables recorded as dropped");
                if *k != 0 {
                    self.fail("wrong-status", format!("dropped table {u} starts as {}", NAMES[*k as usize]));
                }
                if !p.live.contains(u) {
                    self.fail("wrong-entry", format!("{u} is recorded as dropped and was not there ({by})"));
                }
            }
        }
        self.snaps.borrow_mut().push(Snap { at, live, dropped, by });
    }
    /// Keep only these possibilities.
    fn narrow(&self, c: usize, keep: BTreeSet<State>, kind: &str, what: impl FnOnce(&str) -> String) {
        if keep.is_empty() {
            let st = self.states.borrow()[c].iter().map(|s| s.show()).collect::<Vec<_>>().join(" or ");
            return self.fail(kind, what(&st));
        }
        // a flaw counts as soon as nothing else explains what is seen
        if let Some(f) = keep.iter().filter_map(|s| s.flaw).max() && keep.iter().all(|s| s.flaw.is_some()) {
            self.fail(f, format!("a CREATE TABLE AS that failed or was cut off left its table behind, without the rows: {}", keep.iter().find(|s| s.flaw == Some(f)).unwrap().show()));
        }
        self.states.borrow_mut()[c] = keep;
    }
    fn cut_off(&self) {
        let pend: Vec<(usize, usize)> = self.pending.borrow_mut().iter_mut().enumerate().filter_map(|(c, p)| p.take().map(|i| (c, i))).collect();
        for (c, i) in pend {
            if c < self.plan.ddl.len() {
                self.ambiguous(c, &self.plan.ddl[c].items[i].stmt.clone(), "empty-table-left-cut-off");
            }
        }
    }
    fn ambiguous(&self, c: usize, st: &Stmt, flaw: &'static str) {
        let mut s = self.states.borrow_mut();
        let more: Vec<State> = s[c].iter().flat_map(|x| after(c, st, x).into_iter().chain(partly(c, st, x, flaw))).collect();
        s[c].extend(more);
    }
}

async fn client(c: usize, ctx: Arc<SeafowlContext>, sh: Rc<Shared>) {
    let ddl = c < sh.plan.ddl.len();
    let me = if ddl { &sh.plan.ddl[c] } else { sh.plan.cleaner.as_ref().unwrap() };
    loop {
        let i = sh.next.borrow()[c];
        if i >= me.items.len() || sh.bad.borrow().is_some() {
            return;
        }
        sh.next.borrow_mut()[c] = i + 1;
        let it = &me.items[i];
        if it.pause_ms > 0 {
            tokio::time::sleep(Duration::from_millis(it.pause_ms as u64)).await;
        }
        let q = sql(if ddl { c } else { 0 }, &it.stmt);
        let tag = format!("c{c}.{i}");
        asim::note(format!("        {tag}: {q}"));
        sh.pending.borrow_mut()[c] = Some(i);
        let fired = asim::with(|w| w.fired).unwrap_or(0);
        let lost = asim::with(|w| w.stats.iter().filter(|(k, _)| k.contains("catalog") && k.ends_with("after taking effect")).map(|x| *x.1).sum::<u64>()).unwrap_or(0);
        let label = match it.stmt {
            Stmt::VacuumDb => format!("{tag} VACUUM DATABASE"),
            Stmt::VacuumTable(_) => format!("vacuum table {tag}"),
            _ => tag.clone(),
        };
        let live = sh.snaps.borrow().last().unwrap().live.clone();
        let res = match &it.stmt {
            Stmt::OldDrop(t) => old_drop(&sh, &table(c, *t)).await.map(|_| vec![]),
            _ => asim::CLIENT.scope(label, query(&ctx, &q)).await,
        };
        sh.watch();
        let faults = asim::with(|w| w.fired).unwrap_or(0) - fired;
        let faulty = faults > 0;
        let lost = asim::with(|w| w.stats.iter().filter(|(k, _)| k.contains("catalog") && k.ends_with("after taking effect")).map(|x| *x.1).sum::<u64>()).unwrap_or(0) - lost;
        sh.pending.borrow_mut()[c] = None;
        let word = q.split(' ').take(2).collect::<Vec<_>>().join(" ");
        match &res {
            Ok(_) => asim::note(format!("        {tag} done")),
            Err(e) => asim::note(format!("        {tag} fails{}: {e}", if faulty { " (a fault was injected)" } else { "" })),
        }
        asim::count(&format!("{}:{word}", if res.is_ok() { "done" } else { "failed" }));
        if !ddl {
            continue;
        }
        let st = &it.stmt;
        let now = sh.states.borrow()[c].clone();
        match res {
            Ok(b) => {
                let keep: BTreeSet<State> = match st {
                    Stmt::Select(t) => {
                        let got = to_rows(&b);
                        now.iter().filter(|s| (*s).clone().rows(&table(c, *t)).is_some_and(|r| *r == got)).cloned().collect()
                    }
                    Stmt::List => {
                        let got = listed(c, &sh, &b);
                        now.iter().filter(|s| names(s) == got).cloned().collect()
                    }
                    Stmt::VacuumTable(_) => now,
                    _ => now.iter().filter_map(|s| after(c, st, s)).collect(),
                };
                asim::count("acknowledgements checked");
                if matches!(st, Stmt::Drop(..) | Stmt::DropSchema(..)) && !faulty {
                    let s = sh.snaps.borrow().last().unwrap().clone();
                    for u in live.iter().filter(|u| !s.live.contains(*u) && !s.dropped.contains_key(*u)) {
                        // another client's drop may be under way
                        if sh.plan.ddl.len() == 1 {
                            asim::count("drops checked");
                            if !sh.objects(u).is_empty() {
                                sh.fail("not-deleted", format!("{q} succeeds and leaves {:?}", sh.objects(u)));
                            }
                        }
                    }
                }
                let ans = if let Stmt::Select(_) = st { format!(" ({})", show(&to_rows(&b))) } else { String::new() };
                sh.narrow(c, keep, "acknowledged-wrongly", |st| format!("{q} succeeds{ans}, while there is {st}"));
            }
            // taking the table away again may fail as well, or the server does not know that it is there
            Err(_) if faulty => sh.ambiguous(c, st, if faults > 1 || lost > 0 || matches!(st, Stmt::BadCtas(..)) { "empty-table-left-cut-off" } else { "empty-table-left" }),
            Err(e) => {
                asim::count("refusals checked");
                let keep: BTreeSet<State> = now.iter().filter(|s| after(c, st, s).is_none()).cloned().collect();
                if keep.is_empty() && matches!(st, Stmt::List) && sh.next.borrow().len() > 1 {
                    continue;
                }
                sh.narrow(c, keep, "fails-without-fault", |st| format!("{q} fails ({e}), while there is {st}"));
            }
        }
    }
}
async fn old_drop(sh: &Shared, t: &(String, String)) -> Result<(), String> {
    use asim::Verdict;
    let v = asim::op("catalog-old_drop".to_string(), true, true).await;
    if v == Verdict::Fail {
        return Err("injected".into());
    }
    let host = sh.host.clone();
    let (c, n) = t.clone();
    let done = host.now(async {
        let mut tx = host.repo.executor.begin().await.unwrap();
        let q = "INSERT INTO dropped_table(database_name, collection_name, table_name, uuid) SELECT 'default', c.name, t.name, t.uuid FROM \"table\" t JOIN collection c ON t.collection_id = c.id WHERE c.name = $1 AND t.name = $2";
        let k = sqlx::query(q).bind(&c).bind(&n).execute(&mut *tx).await.unwrap().rows_affected();
        let q = "DELETE FROM \"table\" WHERE name = $2 AND collection_id = (SELECT id FROM collection WHERE name = $1)";
        sqlx::query(q).bind(&c).bind(&n).execute(&mut *tx).await.unwrap();
        tx.commit().await.unwrap();
        k == 1
    });
    host.wrote("old_drop");
    match (done, v) {
        (_, Verdict::FailAfter) => Err("injected".into()),
        (true, _) => Ok(()),
        _ => Err("no such table".into()),
    }
}
fn names(s: &State) -> BTreeSet<(String, String)> {
    s.schemas.iter().flat_map(|(k, ts)| ts.keys().map(move |t| (k.clone(), t.clone()))).collect()
}
/// The tables in a client's schemas that the server lists.
fn listed(c: usize, sh: &Shared, b: &[arrow::record_batch::RecordBatch]) -> BTreeSet<(String, String)> {
    let mine: Vec<String> = (0..2).map(|k| schema(c, k)).collect();
    let _ = sh;
    let mut v = BTreeSet::new();
    for b in b {
        for i in 0..b.num_rows() {
            let f = |n: &str| arrow::util::display::array_value_to_string(b.column_by_name(n).unwrap(), i).unwrap();
            let (s, t) = (f("table_schema"), f("table_name"));
            if mine.contains(&s) {
                v.insert((s, t));
            }
        }
    }
    v
}

async fn life(sh: Rc<Shared>) {
    let p = &sh.plan;
    let mut servers = vec![];
    for _ in 0..p.servers {
        servers.push(server(&sh.store, &sh.host, 1000).await);
    }
    if sh.plan.other && sh.life.get() == 0 {
        // a dropped table of another database
        let host = sh.host.clone();
        host.now(async {
            let q = format!("INSERT INTO dropped_table(database_name, collection_name, table_name, uuid) VALUES ('other', 'public', 'a', x'{}')", OTHER.replace('-', ""));
            sqlx::query(&q).execute(&host.repo.executor).await.unwrap();
        });
        let path = format!("{OTHER}/part-00000.parquet").into();
        futures::executor::block_on(object_store::ObjectStore::put(&*sh.store.inner, &path, "x".into())).unwrap();
    }
    sh.host.writes();
    sh.snap("start".into());
    sh.armed.set(true);
    asim::with(|w| {
        w.faults = Faults { rates: vec![("get", p.faults / 2, 300), ("head", p.faults / 2, 0), ("catalog ", p.faults / 4, 0), ("", p.faults, 500)], budget: p.budget };
    });
    let n = p.ddl.len() + p.cleaner.is_some() as usize;
    let hs: Vec<_> = (0..n)
        .map(|c| {
            let k = p.ddl.get(c).or(p.cleaner.as_ref()).unwrap().server as usize % servers.len();
            asim::spawn_client(format!("c{c}"), client(c, servers[k].clone(), sh.clone()))
        })
        .collect();
    for h in hs {
        let _ = h.await;
    }
    if sh.bad.borrow().is_some() {
        return;
    }
    asim::calm();
    asim::note("        all done, faults end");
    sh.ending.set(true);
    // a server that just started agrees
    let fresh = server(&sh.store, &sh.host, 1000).await;
    let got = match query(&fresh, &sql(0, &Stmt::List)).await {
        Ok(b) => b,
        Err(e) => return sh.fail("unreadable", format!("the tables cannot be listed at the end: {e}")),
    };
    for c in 0..p.ddl.len() {
        let got = listed(c, &sh, &got);
        let keep: BTreeSet<State> = sh.states.borrow()[c].iter().filter(|s| names(s) == got).cloned().collect();
        sh.narrow(c, keep, "wrong-tables", |st| format!("the tables listed at the end are {got:?}, while there is {st}"));
        for t in &got {
            match query(&fresh, &format!("SELECT id, v, s FROM {}.{}", t.0, t.1)).await {
                Ok(b) => {
                    let got = to_rows(&b);
                    let keep: BTreeSet<State> = sh.states.borrow()[c].iter().filter(|s| s.schemas[&t.0][&t.1] == got).cloned().collect();
                    sh.narrow(c, keep, "wrong-contents", |st| format!("{}.{} holds {} at the end, while there is {st}", t.0, t.1, show(&got)));
                    asim::count("tables read at the end");
                }
                Err(e) => sh.fail("unreadable", format!("{}.{} is listed and cannot be read: {e}", t.0, t.1)),
            }
            if sh.bad.borrow().is_some() {
                return;
            }
        }
        // names that are free can be used, listed tables changed and dropped
        for k in 0..2u8 {
            let s = schema(c, k);
            // whether the schema is there may be open
            let made = query(&fresh, &sql(c, &Stmt::CreateSchema(k, false))).await.is_ok();
            let keep: BTreeSet<State> = sh.states.borrow()[c].iter().filter(|x| x.schemas.contains_key(&s) != made).cloned().collect();
            sh.narrow(c, keep, "wrong-schemas", |st| format!("schema {s} {} be created at the end, while there is {st}", if made { "can" } else { "cannot" }));
            if sh.bad.borrow().is_some() {
                return;
            }
            for n in 0..3u8 {
                let t = table(c, (k, n));
                let mut want = vec![];
                if got.contains(&t) {
                    match sh.states.borrow()[c].iter().next().map(|x| x.schemas[&t.0][&t.1].clone()) {
                        Some(r) => want = r,
                        None => return,
                    }
                } else if let Err(e) = query(&fresh, &sql(c, &Stmt::Create((k, n), false))).await {
                    return sh.fail("name-taken", format!("{}.{} is not listed and cannot be created: {e}", t.0, t.1));
                }
                let new: Row = (1_000_000, Some(1), Some("end".into()));
                if let Err(e) = query(&fresh, &sql(c, &Stmt::Insert((k, n), vec![new.clone()]))).await {
                    return sh.fail("unusable", format!("{}.{} cannot be inserted into: {e}", t.0, t.1));
                }
                want.push(new);
                want.sort();
                match query(&fresh, &sql(c, &Stmt::Select((k, n)))).await {
                    Ok(b) if to_rows(&b) == want => {}
                    Ok(b) => return sh.fail("wrong-contents", format!("{}.{} holds {} instead of {}", t.0, t.1, show(&to_rows(&b)), show(&want))),
                    Err(e) => return sh.fail("unreadable", format!("{}.{}: {e}", t.0, t.1)),
                }
                asim::count("names used at the end");
            }
        }
    }
    // clean-ups while the store refuses to delete
    if p.stubborn > 0 {
        for round in 0..2 {
            asim::note("        the store refuses to delete");
            let before = sh.snaps.borrow().last().unwrap().dropped.clone();
            let full: Vec<String> = before.keys().filter(|u| *u != OTHER && !sh.objects(u).is_empty()).cloned().collect();
            let label = if p.stubborn == 1 { "list" } else { "delete" };
            asim::with(|w| w.faults = Faults { rates: vec![(label, 1000, 0)], budget: 1_000_000 });
            let r = query(&fresh, &sql(0, &Stmt::VacuumDb)).await;
            asim::calm();
            if let Err(e) = r {
                return sh.fail("clean-up-fails", e);
            }
            sh.watch();
            let after = sh.snaps.borrow().last().unwrap().dropped.clone();
            for u in full {
                asim::count("stubborn entries checked");
                match (before[&u], after.get(&u)) {
                    (2, Some(2)) => {}
                    (k, Some(n)) if *n == k + 1 => {}
                    (k, n) => return sh.fail("wrong-status", format!("dropped table {u} cannot be deleted: its entry goes from status {k} to {n:?} (round {round})")),
                }
            }
            if sh.bad.borrow().is_some() {
                return;
            }
        }
    }
    if let Err(e) = query(&fresh, &sql(0, &Stmt::VacuumDb)).await {
        return sh.fail("clean-up-fails", e);
    }
    sh.watch();
    let last = sh.snaps.borrow().last().unwrap().clone();
    for (u, k) in &last.dropped {
        if *k != 2 && u != OTHER {
            return sh.fail("not-cleaned-up", format!("dropped table {u} is still recorded (status {k}) after a clean-up without faults, by {}, at {}", last.by, last.at));
        }
    }
    let all: BTreeSet<String> = sh.snaps.borrow().iter().flat_map(|s| s.dropped.keys().cloned()).collect();
    for u in all.iter().filter(|u| !last.dropped.contains_key(*u)) {
        asim::count("clean-ups checked");
        if !sh.objects(u).is_empty() {
            return sh.fail("forgotten", format!("dropped table {u} has objects left and no entry"));
        }
    }
    sh.finished.set(true);
}

pub fn run(prop: &str, p: &Plan, d: Decider) -> RunResult {
    let _ = prop;
    let p = p.clone();
    let res = asim::isolated(move || {
        let mut res = RunResult::default();
        let _scratch = srv::Scratch::new();
        asim::begin(d);
        let n = p.ddl.len() + p.cleaner.is_some() as usize;
        let start = |c: usize| {
            let mut s = State::default();
            if c == 0 {
                s.schemas.insert("public".into(), Default::default());
            }
            BTreeSet::from([s])
        };
        let sh = Rc::new(Shared {
            bad: RefCell::new(None),
            store: SimStore::new(""),
            host: Host::new(),
            next: RefCell::new(vec![0; n]),
            states: RefCell::new((0..p.ddl.len()).map(start).collect()),
            pending: RefCell::new(vec![None; n]),
            snaps: Default::default(),
            deletes_seen: Cell::new(0),
            armed: Cell::new(false),
            finished: Cell::new(false),
            ending: Cell::new(false),
            life: Cell::new(0),
            plan: p.clone(),
        });
        let cfg = asim::Config { sticky: p.sticky, stall: p.stall, stall_ms: p.stall_ms.clone(), max_steps: 60_000 };
        loop {
            let (s2, s3) = (sh.clone(), sh.clone());
            let n = sh.life.get();
            let crash = p.crashes.get(n).cloned();
            let mut steps = 0u64;
            let end = asim::run(&cfg, async move { life(s2).await }, move || {
                if s3.armed.get() {
                    steps += 1;
                    s3.watch();
                }
                s3.bad.borrow().is_none() && (crash.is_none_or(|c| steps < c) || s3.ending.get())
            });
            if sh.bad.borrow().is_some() {
                break;
            }
            match end {
                End::Stopped => {
                    asim::note("        CRASH");
                    asim::count("fault:crash");
                    sh.cut_off();
                    sh.life.set(n + 1);
                }
                End::Done => {
                    if !sh.finished.get() {
                        sh.fail("panic", "the server panicked".into());
                    }
                    break;
                }
                End::Stuck => {
                    sh.fail("hang", "nothing can go on, yet not every statement is answered".into());
                    break;
                }
                End::Endless => {
                    sh.fail("hang", "not finished within 60000 steps".into());
                    break;
                }
            }
        }
        let w = asim::end();
        res.violation = sh.bad.borrow().clone();
        res.nontrivial = *w.stats.get("tables dropped").unwrap_or(&0) > 0;
        res.stats = w.stats;
        res.states = w.states;
        res.log = w.log;
        res.steps = w.steps;
        res.decisions = w.d.log;
        res.sim_us = asim::sys::elapsed_us();
        res
    });
    match res {
        Ok(r) => r,
        Err(e) => {
            let what = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness panicked: {what}");
            std::process::abort()
        }
    }
}

pub fn gen(prop: &str, rng: &mut Rng, _i: u64, thorough: bool) -> Plan {
    let servers = *rng.pick(&[1u8, 1, 2]);
    // clients on one server share its view of the catalog
    let nd = if servers == 1 { 1 } else { *rng.pick(&[1, 2, 2]) };
    let mut id = 0;
    let pauses = *rng.pick(&[[0u32, 0, 0], [0, 1, 20]]);
    let ddl: Vec<Client> = (0..nd)
        .map(|c| {
            let n = rng.range(3, if thorough { 25 } else { 14 });
            let schemas = *rng.pick(&[1u64, 2, 2]);
            let first = if c > 0 { vec![Stmt::CreateSchema(0, false)] } else { vec![] };
            let items = first
                .into_iter()
                .map(|stmt| Item { stmt, pause_ms: 0 })
                .chain((0..n).map(|i| {
                    let mut t = || (rng.below(schemas) as u8, rng.below(3) as u8);
                    let (a, b) = (t(), t());
                    let w: &[u64] = match prop {
                        "D04" => &[2, 1, 4, 4, 1, 1, 3, 1, 1, 1, 0, 5, 1, 6],
                        _ => &[2, 2, 4, 3, 4, 4, 4, 1, 1, 3, 1, 1, 1, 0],
                    };
                    let w = if i == 0 { &[0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0][..] } else { w };
                    let stmt = match rng.weighted(w) {
                        0 => Stmt::CreateSchema(rng.below(schemas) as u8, rng.chance(300)),
                        // public stays
                        1 => Stmt::DropSchema(if c == 0 { 1 } else { rng.below(schemas) as u8 }, rng.chance(400)),
                        2 => Stmt::Create(a, rng.chance(300)),
                        3 if rng.chance(150) => Stmt::BadCtas(a, rng.chance(200)),
                        3 => Stmt::Ctas(a, (0..rng.range(1, 4)).map(|_| row(rng, &mut id)).collect(), rng.chance(200)),
                        4 => Stmt::Drop(a, rng.chance(400)),
                        5 => Stmt::Rename(a, if a == b { (a.0, (a.1 + 1) % 3) } else { b }),
                        6 => Stmt::Insert(a, (0..rng.range(1, 3)).map(|_| row(rng, &mut id)).collect()),
                        7 => Stmt::Delete(a),
                        8 => Stmt::Truncate(a),
                        9 => Stmt::Select(a),
                        10 => Stmt::List,
                        11 => Stmt::VacuumDb,
                        12 => Stmt::VacuumTable(a),
                        _ => Stmt::OldDrop(a),
                    };
                    Item { stmt, pause_ms: *rng.pick(&pauses) }
                }))
                .collect();
            Client { server: (c % servers as usize) as u8, items }
        })
        .collect();
    let cleaner = (servers == 2 && rng.chance(if prop == "D04" { 700 } else { 300 })).then(|| Client {
        server: rng.below(2) as u8,
        items: (0..rng.range(1, 6))
            .map(|_| Item { stmt: if rng.chance(700) { Stmt::VacuumDb } else { Stmt::Select((0, rng.below(3) as u8)) }, pause_ms: *rng.pick(&[0, 1, 5, 30]) })
            .collect(),
    });
    let faulty = rng.chance(600);
    let crashes = if !faulty || rng.chance(300) { (0..rng.below(if thorough { 4 } else { 3 })).map(|_| rng.range(2, 90)).collect() } else { vec![] };
    Plan {
        servers,
        ddl,
        cleaner,
        crashes,
        faults: if faulty { *rng.pick(&[20, 60, 200]) } else { 0 },
        budget: *rng.pick(&[1, 2, 4, 10]),
        stubborn: *rng.pick(&[0, 0, 1, 2]),
        other: prop == "D04" && rng.chance(500),
        sticky: *rng.pick(&[0, 300, 700, 900]),
        stall: *rng.pick(&[0, 0, 30]),
        stall_ms: vec![1, 10, 1100],
    }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let same = serde_json::to_string(p).unwrap();
    let mut add = |q: Plan| {
        if serde_json::to_string(&q).unwrap() != same {
            v.push(q)
        }
    };
    for f in [
        |q: &mut Plan| q.cleaner = None,
        |q: &mut Plan| {
            if q.ddl.len() > 1 {
                q.ddl.pop();
            }
        },
        |q: &mut Plan| q.stall = 0,
        |q: &mut Plan| q.faults = 0,
        |q: &mut Plan| q.budget = 1,
        |q: &mut Plan| q.stubborn = 0,
        |q: &mut Plan| q.other = false,
        |q: &mut Plan| q.sticky = 0,
        |q: &mut Plan| {
            q.crashes.pop();
        },
        |q: &mut Plan| q.ddl.iter_mut().flat_map(|c| &mut c.items).for_each(|i| i.pause_ms = 0),
    ] {
        let mut q = p.clone();
        f(&mut q);
        add(q);
    }
    for c in 0..p.ddl.len() {
        for i in 0..p.ddl[c].items.len() {
            let mut q = p.clone();
            q.ddl[c].items.remove(i);
            add(q);
        }
    }
    if let Some(k) = &p.cleaner {
        for i in 0..k.items.len() {
            let mut q = p.clone();
            q.cleaner.as_mut().unwrap().items.remove(i);
            add(q);
        }
    }
    v
}

pub fn meta(prop: &str) -> Meta {
    let mut m = crate::dml::meta("D01");
    m.rule = "runs in which at least one table was dropped (D04: recorded as dropped)".into();
    m.probes = match prop {
        "D04" => vec!["deletions checked", "entries removed", "stubborn entries checked", "clean-ups checked", "entry becomes retry", "fault:crash"],
        _ => vec!["drops checked", "acknowledgements checked", "refusals checked", "tables read at the end", "names used at the end", "fault:crash", "done:ALTER TABLE", "done:DROP SCHEMA"],
    };
    m
}
