//! Sequential specification of the catalog, and a linearizability checker for histories with crashed
//! and failed (ambiguous) operations.

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub type Cols = Vec<(String, String)>;

/// A concrete operation as issued (references resolved to identifiers).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum COp {
    CreateDb(String),
    GetDb(String),
    CreateColl(i64, String),
    GetColl(String, String),
    /// collection, name, columns, uuid (hex), whether the columns can be stored at all
    CreateTable(i64, String, Cols, String),
    GetTable(String, String, String),
    List(String),
    NewVersion(String, i64),
    DeleteOld(i64),
    AllVersions(String, Option<Vec<String>>),
    Rename(i64, String, Option<i64>),
    CreateFn(i64, String, bool, String),
    ListFn(i64),
    DropFn(i64, Vec<String>),
    DeleteTable(i64),
    DeleteColl(i64),
    DeleteDb(i64),
    ListDropped(Option<String>),
    UpdDropped(String, String),
    DelDropped(String),
    /// opening the catalog (start-up): no visible effect
    Open,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Err {
    Unique,
    Fk,
    NotFound,
    /// lock contention
    Busy,
    /// any other failure
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res {
    Unit,
    Id(i64),
    Ids(i64, i64),
    Count(u64),
    Db(i64, String),
    Coll(i64, i64, String),
    Table(i64, i64, String),
    /// collection, table, table id, uuid, version id, column, type
    List(Vec<(String, Option<String>, Option<i64>, Option<String>, Option<i64>, Option<String>, Option<String>)>),
    /// collection, table, version id, version, creation time
    Versions(Vec<(String, String, i64, i64, i64)>),
    Fns(Vec<(String, i64, String)>),
    /// database, collection, table, uuid, status, time
    Dropped(Vec<(String, String, String, String, String, i64)>),
    Err(Err),
    /// never answered (the process died)
    Crashed,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ver {
    pub table: i64,
    pub version: i64,
    pub lo: i64,
    pub hi: i64,
    pub cols: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct State {
    pub dbs: BTreeMap<i64, String>,
    pub colls: BTreeMap<i64, (i64, String)>,
    pub tables: BTreeMap<i64, (i64, String, String)>,
    pub vers: BTreeMap<i64, Ver>,
    pub fns: BTreeMap<i64, (i64, String, String)>,
    pub dropped: Vec<(String, String, String, String, String, i64)>,
    /// highest identifier ever used: dbs, colls, tables, versions, functions
    pub hw: [i64; 5],
}

fn ids<V>(m: &BTreeMap<i64, V>, hw: i64) -> Vec<i64> {
    // identifiers a create whose answer was lost may have used
    let a = m.keys().next_back().copied().unwrap_or(0) + 1;
    let b = hw + 1;
    if a == b { vec![a] } else { vec![a, b] }
}

pub struct Ctx {
    pub wall_lo: i64,
    pub wall_hi: i64,
}

/// What a mutation does when it succeeds: Err(class) if the specification refuses it.
enum Eff {
    Refuse(Vec<Err>),
    /// possible successor states with the result each would have returned
    Ok(Vec<(State, Res)>),
}

impl State {
    fn db_by_name(&self, n: &str) -> Option<i64> {
        self.dbs.iter().find(|(_, v)| *v == n).map(|(k, _)| *k)
    }
    fn drop_table(&mut self, t: i64) {
        self.tables.remove(&t);
        self.vers.retain(|_, v| v.table != t);
    }
    fn drop_coll(&mut self, c: i64) {
        self.colls.remove(&c);
        let ts: Vec<i64> = self.tables.iter().filter(|(_, v)| v.0 == c).map(|(k, _)| *k).collect();
        for t in ts {
            self.drop_table(t);
        }
    }
    fn latest(&self, t: i64) -> Option<i64> {
        self.vers.iter().filter(|(_, v)| v.table == t).map(|(k, _)| *k).max()
    }

    /// `seen`: identifiers the operation returned, when it returned.
    fn effect(&self, op: &COp, seen: Option<&Res>, cx: &Ctx) -> Eff {
        let one = |s: State, r: Res| Eff::Ok(vec![(s, r)]);
        let cand = |m: Vec<i64>, got: Option<i64>, used: &dyn Fn(i64) -> bool| -> Vec<i64> {
            match got {
                Some(g) if g > 0 && !used(g) => vec![g],
                Some(_) => vec![],
                None => m,
            }
        };
        let seen_id = match seen {
            Some(Res::Id(i)) => Some(*i),
            _ => None,
        };
        match op {
            COp::CreateDb(n) => {
                if self.db_by_name(n).is_some() {
                    return Eff::Refuse(vec![Err::Unique]);
                }
                Eff::Ok(cand(ids(&self.dbs, self.hw[0]), seen_id, &|i| self.dbs.contains_key(&i)).into_iter().map(|i| {
                    let mut s = self.clone();
                    s.dbs.insert(i, n.clone());
                    s.hw[0] = s.hw[0].max(i);
                    (s, Res::Id(i))
                }).collect())
            }
            COp::CreateColl(d, n) => {
                let dup = self.colls.values().any(|c| c.0 == *d && c.1 == *n);
                if dup {
                    return Eff::Refuse(vec![Err::Unique]);
                }
                if !self.dbs.contains_key(d) {
                    return Eff::Refuse(vec![Err::Fk]);
                }
                Eff::Ok(cand(ids(&self.colls, self.hw[1]), seen_id, &|i| self.colls.contains_key(&i)).into_iter().map(|i| {
                    let mut s = self.clone();
                    s.colls.insert(i, (*d, n.clone()));
                    s.hw[1] = s.hw[1].max(i);
                    (s, Res::Id(i))
                }).collect())
            }
            COp::CreateTable(c, n, cols, uuid) => {
                let mut why = vec![];
                if self.tables.values().any(|t| t.0 == *c && t.1 == *n) {
                    why.push(Err::Unique);
                }
                if cols.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() != cols.len() {
                    why.push(Err::Unique);
                }
                if !self.colls.contains_key(c) {
                    why.push(Err::Fk);
                }
                if cols.len() > 10_000 {
                    // more columns than one statement can carry: may be refused
                    why.push(Err::Other("too many".into()));
                }
                if !why.is_empty() {
                    return Eff::Refuse(why);
                }
                let (st, sv) = match seen {
                    Some(Res::Ids(a, b)) => (Some(*a), Some(*b)),
                    _ => (None, None),
                };
                let mut out = vec![];
                for t in cand(ids(&self.tables, self.hw[2]), st, &|i| self.tables.contains_key(&i)) {
                    for v in cand(ids(&self.vers, self.hw[3]), sv, &|i| self.vers.contains_key(&i)) {
                        let mut s = self.clone();
                        s.tables.insert(t, (*c, n.clone(), uuid.clone()));
                        let mut cols = cols.clone();
                        cols.sort();
                        s.vers.insert(v, Ver { table: t, version: 0, lo: cx.wall_lo, hi: cx.wall_hi, cols });
                        s.hw[2] = s.hw[2].max(t);
                        s.hw[3] = s.hw[3].max(v);
                        out.push((s, Res::Ids(t, v)));
                    }
                }
                Eff::Ok(out)
            }
            COp::NewVersion(uuid, version) => {
                let t = match self.tables.iter().find(|(_, t)| t.2 == *uuid) {
                    Some((t, _)) => *t,
                    None => return Eff::Refuse(vec![Err::NotFound]),
                };
                let last = self.latest(t).unwrap();
                let got = seen_id;
                Eff::Ok(cand(ids(&self.vers, self.hw[3]), got, &|i| self.vers.contains_key(&i) || i < last).into_iter().map(|v| {
                    let mut s = self.clone();
                    let cols = s.vers[&last].cols.clone();
                    s.vers.insert(v, Ver { table: t, version: *version, lo: cx.wall_lo, hi: cx.wall_hi, cols });
                    s.hw[3] = s.hw[3].max(v);
                    (s, Res::Id(v))
                }).collect())
            }
            COp::DeleteOld(t) => {
                let mut s = self.clone();
                let keep = self.latest(*t);
                let n = s.vers.len();
                s.vers.retain(|k, v| v.table != *t || Some(*k) == keep);
                let c = (n - s.vers.len()) as u64;
                one(s, Res::Count(c))
            }
            COp::Rename(t, n, c) => {
                let Some(old) = self.tables.get(t) else { return Eff::Refuse(vec![Err::NotFound]) };
                let nc = c.unwrap_or(old.0);
                let mut why = vec![];
                if self.tables.iter().any(|(k, x)| k != t && x.0 == nc && x.1 == *n) {
                    why.push(Err::Unique);
                }
                if !self.colls.contains_key(&nc) {
                    why.push(Err::Fk);
                }
                if !why.is_empty() {
                    return Eff::Refuse(why);
                }
                let mut s = self.clone();
                let e = s.tables.get_mut(t).unwrap();
                e.0 = nc;
                e.1 = n.clone();
                one(s, Res::Unit)
            }
            COp::CreateFn(d, n, or_replace, details) => {
                let dup = self.fns.iter().find(|(_, f)| f.0 == *d && f.1 == *n).map(|(k, _)| *k);
                match dup {
                    Some(_) if !or_replace => return Eff::Refuse(vec![Err::Unique]),
                    Some(i) => {
                        let mut s = self.clone();
                        s.fns.insert(i, (*d, n.clone(), details.clone()));
                        return one(s, Res::Id(i));
                    }
                    None => {}
                }
                if !self.dbs.contains_key(d) {
                    return Eff::Refuse(vec![Err::Fk]);
                }
                Eff::Ok(cand(ids(&self.fns, self.hw[4]), seen_id, &|i| self.fns.contains_key(&i)).into_iter().map(|i| {
                    let mut s = self.clone();
                    s.fns.insert(i, (*d, n.clone(), details.clone()));
                    s.hw[4] = s.hw[4].max(i);
                    (s, Res::Id(i))
                }).collect())
            }
            COp::DropFn(d, names) => {
                let mut s = self.clone();
                let n = s.fns.len();
                s.fns.retain(|_, f| !(f.0 == *d && names.contains(&f.1)));
                if s.fns.len() == n {
                    return Eff::Refuse(vec![Err::NotFound]);
                }
                one(s, Res::Unit)
            }
            COp::DeleteTable(t) => {
                if !self.tables.contains_key(t) {
                    return Eff::Refuse(vec![Err::NotFound]);
                }
                let mut s = self.clone();
                s.drop_table(*t);
                one(s, Res::Unit)
            }
            COp::DeleteColl(c) => {
                if !self.colls.contains_key(c) {
                    return Eff::Refuse(vec![Err::NotFound]);
                }
                let mut s = self.clone();
                s.drop_coll(*c);
                one(s, Res::Unit)
            }
            COp::DeleteDb(d) => {
                if !self.dbs.contains_key(d) {
                    return Eff::Refuse(vec![Err::NotFound]);
                }
                let mut s = self.clone();
                s.dbs.remove(d);
                let cs: Vec<i64> = s.colls.iter().filter(|(_, c)| c.0 == *d).map(|(k, _)| *k).collect();
                for c in cs {
                    s.drop_coll(c);
                }
                s.fns.retain(|_, f| f.0 != *d);
                one(s, Res::Unit)
            }
            COp::UpdDropped(u, st) => {
                let mut s = self.clone();
                let mut hit = false;
                for r in s.dropped.iter_mut().filter(|r| r.3 == *u) {
                    r.4 = st.clone();
                    hit = true;
                }
                if !hit {
                    return Eff::Refuse(vec![Err::NotFound]);
                }
                one(s, Res::Unit)
            }
            COp::DelDropped(u) => {
                let mut s = self.clone();
                let n = s.dropped.len();
                s.dropped.retain(|r| r.3 != *u);
                if s.dropped.len() == n {
                    return Eff::Refuse(vec![Err::NotFound]);
                }
                one(s, Res::Unit)
            }
            // reads
            COp::GetDb(n) => match self.db_by_name(n) {
                Some(i) => one(self.clone(), Res::Db(i, n.clone())),
                None => Eff::Refuse(vec![Err::NotFound]),
            },
            COp::GetColl(d, c) => {
                let r = self.db_by_name(d).and_then(|di| self.colls.iter().find(|(_, x)| x.0 == di && x.1 == *c).map(|(k, _)| Res::Coll(*k, di, c.clone())));
                match r {
                    Some(r) => one(self.clone(), r),
                    None => Eff::Refuse(vec![Err::NotFound]),
                }
            }
            COp::GetTable(d, c, t) => {
                let r = self.db_by_name(d)
                    .and_then(|di| self.colls.iter().find(|(_, x)| x.0 == di && x.1 == *c).map(|(k, _)| *k))
                    .and_then(|ci| self.tables.iter().find(|(_, x)| x.0 == ci && x.1 == *t).map(|(k, _)| Res::Table(*k, ci, t.clone())));
                match r {
                    Some(r) => one(self.clone(), r),
                    None => Eff::Refuse(vec![Err::NotFound]),
                }
            }
            COp::List(d) => {
                let mut v = vec![];
                if let Some(di) = self.db_by_name(d) {
                    for (ci, c) in self.colls.iter().filter(|(_, c)| c.0 == di) {
                        let mut any = false;
                        for (ti, t) in self.tables.iter().filter(|(_, t)| t.0 == *ci) {
                            any = true;
                            let lv = self.latest(*ti).unwrap_or(-1);
                            let cols = self.vers.get(&lv).map(|v| v.cols.clone()).unwrap_or_default();
                            if cols.is_empty() {
                                v.push((c.1.clone(), Some(t.1.clone()), Some(*ti), Some(t.2.clone()), Some(lv), None, None));
                            }
                            for (cn, ct) in cols {
                                v.push((c.1.clone(), Some(t.1.clone()), Some(*ti), Some(t.2.clone()), Some(lv), Some(cn), Some(ct)));
                            }
                        }
                        if !any {
                            v.push((c.1.clone(), None, None, None, None, None, None));
                        }
                    }
                }
                v.sort();
                one(self.clone(), Res::List(v))
            }
            COp::AllVersions(d, names) => {
                let mut v = vec![];
                let mut s = self.clone();
                let given: BTreeMap<i64, i64> = match seen {
                    Some(Res::Versions(x)) => x.iter().map(|r| (r.2, r.4)).collect(),
                    _ => BTreeMap::new(),
                };
                if let Some(di) = self.db_by_name(d) {
                    for (vi, ver) in &self.vers {
                        let t = &self.tables[&ver.table];
                        let c = &self.colls[&t.0];
                        if c.0 != di || names.as_ref().is_some_and(|n| !n.is_empty() && !n.contains(&t.1)) {
                            continue;
                        }
                        // the creation time is only known as an interval until it is first seen
                        let at = match given.get(vi) {
                            Some(g) if *g >= ver.lo && *g <= ver.hi => *g,
                            _ => ver.lo,
                        };
                        let e = s.vers.get_mut(vi).unwrap();
                        e.lo = at;
                        e.hi = at;
                        v.push((c.1.clone(), t.1.clone(), *vi, ver.version, at));
                    }
                }
                v.sort();
                one(s, Res::Versions(v))
            }
            COp::ListFn(d) => {
                let mut v: Vec<_> = self.fns.iter().filter(|(_, f)| f.0 == *d).map(|(k, f)| (f.1.clone(), *k, f.2.clone())).collect();
                v.sort();
                one(self.clone(), Res::Fns(v))
            }
            COp::ListDropped(d) => {
                let mut v: Vec<_> = self.dropped.iter().filter(|r| d.as_ref().map(|d| r.0 == *d).unwrap_or(true)).cloned().collect();
                v.sort();
                one(self.clone(), Res::Dropped(v))
            }
            COp::Open => one(self.clone(), Res::Unit),
        }
    }

    /// Successor states under which the observed result is legal. Empty: illegal.
    pub fn apply(&self, e: &Event) -> Vec<State> {
        let cx = Ctx { wall_lo: e.wall_lo, wall_hi: e.wall_hi };
        match &e.res {
            Res::Crashed => match self.effect(&e.op, None, &cx) {
                Eff::Refuse(_) => vec![self.clone()],
                Eff::Ok(v) => {
                    let mut out = vec![self.clone()];
                    for (s, _) in v {
                        if s != *self {
                            out.push(s);
                        }
                    }
                    out
                }
            },
            Res::Err(x) => {
                let eff = self.effect(&e.op, None, &cx);
                match x {
                    Err::Unique | Err::Fk | Err::NotFound => match eff {
                        Eff::Refuse(w) if w.contains(x) => vec![self.clone()],
                        _ => vec![],
                    },
                    Err::Busy | Err::Other(_) => {
                        let allowed = match x {
                            Err::Busy => e.busy > 0 || e.faults > 0 || e.may_fail,
                            // two processes that create or upgrade the same database: one may be refused
                            _ => e.faults > 0 || e.may_fail || (e.op == COp::Open && e.busy > 0),
                        };
                        match eff {
                            Eff::Refuse(w) if w.iter().any(|y| matches!(y, Err::Other(_))) => vec![self.clone()],
                            _ if !allowed => vec![],
                            Eff::Refuse(_) => vec![self.clone()],
                            Eff::Ok(v) => {
                                let mut out = vec![self.clone()];
                                for (s, _) in v {
                                    if s != *self {
                                        out.push(s);
                                    }
                                }
                                out
                            }
                        }
                    }
                }
            }
            r => match self.effect(&e.op, Some(r), &cx) {
                Eff::Ok(v) => v.into_iter().filter(|(_, x)| x == r).map(|(s, _)| s).collect(),
                Eff::Refuse(w) if w.iter().any(|y| matches!(y, Err::Other(_))) && w.len() == 1 => {
                    // the refusal was optional
                    let mut s2 = self.clone();
                    if let (COp::CreateTable(c, n, cols, uuid), Res::Ids(t, v)) = (&e.op, r) {
                        if s2.tables.contains_key(t) || s2.vers.contains_key(v) {
                            return vec![];
                        }
                        s2.tables.insert(*t, (*c, n.clone(), uuid.clone()));
                        let mut cols = cols.clone();
                        cols.sort();
                        s2.vers.insert(*v, Ver { table: *t, version: 0, lo: e.wall_lo, hi: e.wall_hi, cols });
                        s2.hw[2] = s2.hw[2].max(*t);
                        s2.hw[3] = s2.hw[3].max(*v);
                        return vec![s2];
                    }
                    vec![]
                }
                _ => vec![],
            },
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Event {
    pub op: COp,
    pub res: Res,
    pub start: u64,
    pub end: u64,
    /// injected faults / lock contention the process met during the operation
    pub faults: u32,
    pub busy: u32,
    /// may fail for another legitimate reason (mutation on a read-only catalog)
    pub may_fail: bool,
    pub wall_lo: i64,
    pub wall_hi: i64,
    pub who: usize,
}

pub struct Outcome {
    pub ok: bool,
    pub limit: bool,
    /// longest prefix reached, and the events that could not be placed after it
    pub stuck: Vec<usize>,
    pub state: Option<State>,
    pub visited: u64,
}

/// Is there an order of the events, consistent with real time, that the specification explains?
pub fn linearize(init: &State, ev: &[Event]) -> Outcome {
    let n = ev.len();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| ev[*i].start);
    // configurations: set of done events (bitset over `order`) + state
    let words = n.div_ceil(64).max(1);
    let mut seen: HashSet<(Vec<u64>, State)> = HashSet::new();
    let mut stack: Vec<(Vec<u64>, State, usize)> = vec![(vec![0; words], init.clone(), 0)];
    let mut best = 0;
    let mut stuck = vec![];
    let mut best_state = None;
    let mut visited = 0u64;
    while let Some((done, st, cnt)) = stack.pop() {
        visited += 1;
        if visited > 200_000 {
            return Outcome { ok: true, limit: true, stuck: vec![], state: None, visited };
        }
        if cnt == n {
            return Outcome { ok: true, limit: false, stuck: vec![], state: Some(st), visited };
        }
        // candidates: not done, and no other not-done event ended before it started
        let min_end = order.iter().enumerate().filter(|(k, _)| done[k / 64] >> (k % 64) & 1 == 0).map(|(_, i)| ev[*i].end).min().unwrap();
        let cands: Vec<usize> = order.iter().enumerate()
            .filter(|(k, i)| done[k / 64] >> (k % 64) & 1 == 0 && ev[**i].start <= min_end)
            .map(|(k, _)| k).collect();
        if cnt >= best {
            if cnt > best || stuck.is_empty() {
                stuck = cands.iter().map(|k| order[*k]).collect();
                best_state = Some(st.clone());
            }
            best = cnt;
        }
        for k in cands.into_iter().rev() {
            for s2 in st.apply(&ev[order[k]]).into_iter().rev() {
                let mut d2 = done.clone();
                d2[k / 64] |= 1 << (k % 64);
                let key = (d2, s2);
                if !seen.contains(&key) {
                    seen.insert(key.clone());
                    stack.push((key.0, key.1, cnt + 1));
                }
            }
        }
    }
    Outcome { ok: false, limit: false, stuck, state: best_state, visited }
}
