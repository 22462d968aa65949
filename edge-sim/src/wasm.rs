//! W01, W02: the real WASM UDF code and the real wasmtime, with generated guests. Guests give the
//! scheduler control through WASI's sched_yield; guest faults are part of the generated module.

use crate::gate::{self, gate, shared, St};
use arrow::array::*;
use arrow::datatypes::{DataType, TimeUnit};
use datafusion_common::ScalarValue;
use datafusion_expr::{ColumnarValue, ScalarUDF, Volatility};
use seafowl::wasm_udf::data_types::{CreateFunctionDataType as T, CreateFunctionLanguage};
use seafowl::wasm_udf::wasm::create_udf_from_wasm;
use serde::{Deserialize, Serialize};
use simcore::{Decider, Meta, Rng, RunResult, Violation};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- seams

static MEASURE: AtomicBool = AtomicBool::new(false);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if MEASURE.load(Ordering::Relaxed) {
            BIGGEST.fetch_max(l.size(), Ordering::Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if MEASURE.load(Ordering::Relaxed) {
            BIGGEST.fetch_max(l.size(), Ordering::Relaxed);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if MEASURE.load(Ordering::Relaxed) {
            BIGGEST.fetch_max(n, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
const BIG: usize = 64 << 20;

static ON: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub extern "C" fn sched_yield() -> std::ffi::c_int {
    if ON.load(Ordering::Relaxed) && gate::task().is_some() {
        gate("in guest");
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_sched_yield) as i32 }
}

// ---------------------------------------------------------------- plan

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Body {
    /// The value of one argument, unchanged.
    Ident(usize),
    /// The negated floating point argument.
    Neg(usize),
    /// Wrapping sum of the integer arguments.
    Sum,
    /// The received MessagePack bytes as hexadecimal text.
    Echo,
    /// A fixed value, in one of several encodings.
    Const(i64, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Bad {
    Trap,
    Ptr(i32),
    PtrEnd(i32),
    Size(i32),
    Truncated,
    Bytes(Vec<u8>),
    Deep(u32),
    Recurse,
    Exit,
    AllocTrap,
    AllocPtr(i32),
    AllocEnd(i32),
    DeallocTrap,
    /// Faults of the module itself: creating the function must fail.
    NoExport(u8),
    WrongSig(u8),
    StartTrap,
    UnknownImport,
    Garbage(u8),
    WrongEntry,
    /// Plain WASM: what is exported does not have the declared types.
    ResultType,
    ParamType,
    ResultCount(u8),
    Unsupported(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: u32,
    pub poison: bool,
    pub bad: Bad,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Udf {
    pub plain: bool,
    pub inputs: Vec<T>,
    pub ret: T,
    pub body: Body,
    pub top_down: bool,
    pub base: u32,
    pub yields: u8,
    pub fault: Option<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Wrong {
    Count(bool),
    Type(usize, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Eval {
    pub udf: usize,
    pub rows: usize,
    pub seed: u64,
    /// Per argument: 0 array, 1 slice of a longer array, 2 scalar.
    pub forms: Vec<u8>,
    pub wrong: Option<Wrong>,
    /// Create the function anew instead of evaluating the shared one.
    pub fresh: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub udfs: Vec<Udf>,
    pub tasks: Vec<Vec<Eval>>,
    pub sticky: u32,
}

const INTS: &[T] = &[T::SMALLINT, T::INT, T::BIGINT, T::I32, T::I64, T::DATE, T::TIMESTAMP];
fn rand_type(rng: &mut Rng) -> T {
    match rng.below(16) {
        0 => T::SMALLINT,
        1 => T::INT,
        2 | 3 => T::BIGINT,
        4 => T::I32,
        5 => T::I64,
        6 => T::F32,
        7 => T::F64,
        8 => T::FLOAT,
        9 => T::DOUBLE,
        10 => T::REAL,
        11 => T::BOOLEAN,
        12 => rng.pick(&[T::DATE, T::TIMESTAMP]).clone(),
        13 => rand_decimal(rng),
        _ => rng.pick(&[T::TEXT, T::CHAR, T::VARCHAR]).clone(),
    }
}
fn rand_decimal(rng: &mut Rng) -> T {
    let precision = *rng.pick(&[1u8, 5, 18, 19, 20, 30, 38]);
    T::DECIMAL { precision, scale: rng.below(precision as u64 + 1) as i8 }
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Class {
    Int,
    F32,
    F64,
    Text,
    Bool,
    Dec,
}
fn class(t: &T) -> Class {
    match t {
        T::F32 | T::FLOAT | T::REAL => Class::F32,
        T::F64 | T::DOUBLE => Class::F64,
        T::TEXT | T::CHAR | T::VARCHAR => Class::Text,
        T::BOOLEAN => Class::Bool,
        T::DECIMAL { .. } => Class::Dec,
        _ => Class::Int,
    }
}
fn numeric_plain(rng: &mut Rng) -> T {
    rng.pick(&[T::I32, T::I64, T::F32, T::F64, T::INT, T::BIGINT, T::FLOAT, T::REAL, T::DOUBLE]).clone()
}

fn gen_udf(rng: &mut Rng, faulty: bool) -> Udf {
    let plain = rng.chance(300);
    let n = rng.weighted(&[1, 6, 5, 3, 2, 1]);
    let mut inputs: Vec<T> = (0..n).map(|_| if plain { numeric_plain(rng) } else { rand_type(rng) }).collect();
    let (body, ret);
    if n == 0 {
        body = Body::Const(rng.next() as i64 >> rng.below(64), rng.below(6) as u8);
        ret = if plain { rng.pick(&[T::I64, T::BIGINT]).clone() } else { rng.pick(&[T::BIGINT, T::TEXT]).clone() };
    } else if plain {
        let k = rng.below(n as u64) as usize;
        body = Body::Ident(k);
        ret = inputs[k].clone();
    } else {
        match rng.below(10) {
            0..=4 => {
                let k = rng.below(n as u64) as usize;
                body = Body::Ident(k);
                ret = match class(&inputs[k]) {
                    Class::Int if rng.chance(300) => rng.pick(INTS).clone(),
                    Class::F32 if rng.chance(300) => T::DOUBLE,
                    Class::Text => rng.pick(&[T::TEXT, T::CHAR, T::VARCHAR]).clone(),
                    _ => inputs[k].clone(),
                };
            }
            5 => {
                let k = rng.below(n as u64) as usize;
                inputs[k] = rng.pick(&[T::F32, T::F64, T::DOUBLE, T::FLOAT]).clone();
                body = Body::Neg(k);
                ret = inputs[k].clone();
            }
            6 | 7 => {
                inputs.iter_mut().for_each(|t| *t = rng.pick(INTS).clone());
                body = Body::Sum;
                ret = rng.pick(&[T::BIGINT, T::I64, T::TIMESTAMP]).clone();
            }
            8 => {
                body = Body::Echo;
                ret = rng.pick(&[T::TEXT, T::VARCHAR]).clone();
            }
            _ => {
                body = Body::Const(rng.next() as i64 >> rng.below(64), rng.below(6) as u8);
                ret = rng.pick(&[T::BIGINT, T::TEXT]).clone();
            }
        }
    }
    let fault = if !faulty {
        None
    } else {
        let bad = if plain {
            match rng.below(12) {
                0..=4 => Bad::Trap,
                5 => Bad::ResultType,
                6 if n > 0 => Bad::ParamType,
                7 => Bad::ResultCount(rng.below(2) as u8 * 2),
                8 => Bad::Unsupported(rng.below(6) as u8),
                9 => rng.pick(&[Bad::StartTrap, Bad::UnknownImport, Bad::WrongEntry, Bad::NoExport(3)]).clone(),
                10 => Bad::Garbage(rng.below(4) as u8),
                11 => Bad::Recurse,
                _ => Bad::Trap,
            }
        } else {
            match rng.below(22) {
                0 | 1 => Bad::Trap,
                2 => Bad::Ptr(*rng.pick(&[-1, i32::MIN, i32::MAX, -4, -8, -65536, 0x7fff_fffc, 0x0fff_ffff])),
                3 => Bad::PtrEnd(rng.below(5) as i32),
                4 | 5 => Bad::Size(*rng.pick(&[-1, i32::MIN, i32::MAX, i32::MAX - 3, i32::MAX - 4, 0, 1 << 30, 1 << 28, 0x6fff_ffff, -65536])),
                6 => Bad::Truncated,
                7..=11 => Bad::Bytes(bad_bytes(rng, &ret)),
                12 => Bad::Deep(*rng.pick(&[2000u32, 20_000, 100_000])),
                13 => Bad::Recurse,
                14 => Bad::Exit,
                15 => Bad::AllocTrap,
                16 => Bad::AllocPtr(*rng.pick(&[-1, i32::MIN, i32::MAX, -4, -65536, 0x7fff_fff8])),
                17 => Bad::AllocEnd(rng.below(5) as i32),
                18 => Bad::DeallocTrap,
                19 => Bad::NoExport(rng.below(4) as u8),
                20 => Bad::WrongSig(rng.below(3) as u8),
                _ => rng.pick(&[Bad::StartTrap, Bad::UnknownImport, Bad::WrongEntry, Bad::Garbage(0), Bad::Garbage(1), Bad::Garbage(2), Bad::Garbage(3)]).clone(),
            }
        };
        Some(Fault { at: rng.below(4) as u32, poison: rng.chance(500), bad })
    };
    Udf { plain, inputs, ret, body, top_down: rng.chance(400), base: rng.range(2048, 2070) as u32, yields: rng.below(3) as u8, fault }
}

/// Output bytes no reading of which is a value of the return type.
fn bad_bytes(rng: &mut Rng, ret: &T) -> Vec<u8> {
    let mut any: Vec<Vec<u8>> = vec![
        vec![],
        vec![0xc1],
        vec![0xd9, 5, b'a'],
        vec![0xdb, 0xff, 0xff, 0xff, 0xff],
        vec![0xdb, 0x7f, 0xff, 0xff, 0xff, b'x'],
        vec![0xdd, 0xff, 0xff, 0xff, 0xff],
        vec![0xdd, 0x0f, 0xff, 0xff, 0xff, 1],
        vec![0xdf, 0xff, 0xff, 0xff, 0xff],
        vec![0xc6, 0xff, 0xff, 0xff, 0xff],
        vec![0xc9, 0xff, 0xff, 0xff, 0xff, 1],
        vec![0xdc, 0xff, 0xff],
        vec![0xa2, 0xff, 0xfe],
        vec![0x80],
        vec![0x81, 1, 2],
        vec![0x90],
        vec![0x91, 1],
        vec![0xd3, 1, 2],
        vec![0xcd, 1],
        vec![0xca, 1, 2],
        vec![0x94, 0xa1, b'x', 1, 1, 1],
    ];
    let c = class(ret);
    if c != Class::Text {
        any.push(vec![0xa3, b'a', b'b', b'c']);
        any.push(vec![0xa1, b'1']);
    }
    if c == Class::Text {
        any.push(vec![0xc4, 1, b'a']);
        any.push(vec![7]);
    }
    if c != Class::Bool {
        any.push(vec![0xc3]);
    }
    if c == Class::Int {
        any.push(vec![0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
        any.push(vec![0xcb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0]);
        any.push(vec![0xca, 0x3f, 0x80, 0, 0]);
        if *ret == T::SMALLINT {
            any.push(vec![0xce, 0, 1, 0, 0]);
            any.push(vec![0xcd, 0x80, 0]);
            any.push(vec![0xd1, 0x80, 0x00, 0].into_iter().take(0).chain([0xd2, 0xff, 0xff, 0x7f, 0xff]).collect());
        }
        if matches!(ret, T::INT | T::I32 | T::DATE) {
            any.push(vec![0xcf, 0, 0, 0, 1, 0, 0, 0, 0]);
            any.push(vec![0xce, 0x80, 0, 0, 0]);
        }
    }
    if c == Class::F32 {
        any.push(vec![5]);
    }
    if let T::DECIMAL { precision, scale } = ret {
        let (p, s) = (*precision, *scale as u8);
        any.push(vec![0x94, p + 1, s, 0, 1]);
        any.push(vec![0x94, p, s + 1, 0, 1]);
        any.push(vec![0x93, p, s, 0]);
        any.push(vec![0x95, p, s, 0, 1, 1]);
        any.push(vec![0x94, p, s, 0xc3, 1]);
        any.push(vec![0x94, p, s, 0, 0xa1, b'1']);
        any.push(vec![5]);
    }
    // the ones that depend on the type are drawn as often as the rest
    if any.len() > 20 && rng.chance(500) {
        let k = 20 + rng.below(any.len() as u64 - 20) as usize;
        return any[k].clone();
    }
    rng.pick(&any).clone()
}

pub fn gen(prop: &str, rng: &mut Rng, _i: u64, thorough: bool) -> Plan {
    let w2 = prop == "W02";
    let nu = rng.range(1, if thorough { 5 } else { 3 }) as usize;
    let mut udfs: Vec<Udf> = (0..nu).map(|_| {
        let faulty = rng.chance(if w2 { 750 } else { 150 });
        gen_udf(rng, faulty)
    }).collect();
    if w2 && udfs.iter().all(|u| u.fault.is_none()) {
        udfs[0] = gen_udf(rng, true);
    }
    let nt = *rng.pick(&[1usize, 2, 2, 3, if thorough { 5 } else { 3 }]);
    let tasks = (0..nt)
        .map(|_| {
            (0..rng.range(1, if thorough { 5 } else { 3 }))
                .map(|_| {
                    let udf = rng.below(nu as u64) as usize;
                    let u = &udfs[udf];
                    let rows = match rng.below(12) {
                        0 => 0,
                        1 | 2 => 1,
                        3 if thorough => rng.range(100, 2000) as usize,
                        4 => rng.range(30, 300) as usize,
                        _ => rng.range(2, 12) as usize,
                    };
                    let forms = u.inputs.iter().map(|_| rng.weighted(&[4, 2, 2]) as u8).collect();
                    let wrong = if !w2 && rng.chance(100) && !u.inputs.is_empty() {
                        Some(if rng.chance(500) { Wrong::Count(rng.chance(500)) } else { Wrong::Type(rng.below(u.inputs.len() as u64) as usize, rng.below(10) as u8) })
                    } else {
                        None
                    };
                    Eval { udf, rows, seed: rng.next() >> 12, forms, wrong, fresh: rng.chance(150) }
                })
                .collect()
        })
        .collect();
    Plan { udfs, tasks, sticky: *rng.pick(&[0, 300, 700]) }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for i in 0..p.tasks.len() {
        if p.tasks.len() > 1 {
            let mut q = p.clone();
            q.tasks.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.tasks.len() {
        for j in 0..p.tasks[i].len() {
            if p.tasks[i].len() > 1 {
                let mut q = p.clone();
                q.tasks[i].remove(j);
                v.push(q);
            }
        }
    }
    for i in 0..p.udfs.len() {
        if p.tasks.iter().flatten().all(|e| e.udf != i) && p.udfs.len() > 1 {
            let mut q = p.clone();
            q.udfs.remove(i);
            q.tasks.iter_mut().flatten().for_each(|e| e.udf -= (e.udf > i) as usize);
            v.push(q);
        }
    }
    for i in 0..p.tasks.len() {
        for j in 0..p.tasks[i].len() {
            let e = &p.tasks[i][j];
            for r in [0, 1, 2, e.rows / 2, e.rows.saturating_sub(1)] {
                if r < e.rows {
                    let mut q = p.clone();
                    q.tasks[i][j].rows = r;
                    v.push(q);
                }
            }
            if e.forms.iter().any(|f| *f != 0) {
                let mut q = p.clone();
                q.tasks[i][j].forms.iter_mut().for_each(|f| *f = 0);
                v.push(q);
            }
            if e.fresh {
                let mut q = p.clone();
                q.tasks[i][j].fresh = false;
                v.push(q);
            }
        }
    }
    for i in 0..p.udfs.len() {
        let u = &p.udfs[i];
        for w in [Udf { yields: 0, ..u.clone() }, Udf { top_down: false, ..u.clone() }, Udf { fault: None, ..u.clone() }] {
            if w != *u {
                let mut q = p.clone();
                q.udfs[i] = w;
                v.push(q);
            }
        }
        if let Some(f) = &u.fault {
            for w in [Fault { at: 0, ..f.clone() }, Fault { poison: false, ..f.clone() }] {
                if w != *f {
                    let mut q = p.clone();
                    q.udfs[i].fault = Some(w);
                    v.push(q);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- guests

fn esc(b: &[u8]) -> String {
    b.iter().map(|x| format!("\\{x:02x}")).collect()
}

/// A value in one of the encodings MessagePack allows for it.
fn const_bytes(ret: &T, v: i64, enc: u8) -> Vec<u8> {
    if class(ret) == Class::Text {
        let s = const_text(v);
        let mut o = match enc % 4 {
            0 if s.len() < 32 => vec![0xa0 | s.len() as u8],
            1 => vec![0xd9, s.len() as u8],
            2 => vec![0xda, 0, s.len() as u8],
            _ => vec![0xdb, 0, 0, 0, s.len() as u8],
        };
        o.extend(s.as_bytes());
        return o;
    }
    let fits_u = v >= 0;
    match enc {
        0 if (0..128).contains(&v) => vec![v as u8],
        0 if (-32..0).contains(&v) => vec![v as u8],
        1 if (-128..128).contains(&v) => vec![0xd0, v as u8],
        2 if (-32768..32768).contains(&v) => [&[0xd1][..], &(v as i16).to_be_bytes()].concat(),
        3 if i32::try_from(v).is_ok() => [&[0xd2][..], &(v as i32).to_be_bytes()].concat(),
        4 if fits_u => [&[0xcf][..], &v.to_be_bytes()].concat(),
        5 if u32::try_from(v).is_ok() => [&[0xce][..], &(v as u32).to_be_bytes()].concat(),
        _ => [&[0xd3][..], &v.to_be_bytes()].concat(),
    }
}
fn const_text(v: i64) -> String {
    format!("c{v}é")
}

fn plain_type(t: &T) -> &'static str {
    match t {
        T::I32 | T::INT => "i32",
        T::I64 | T::BIGINT => "i64",
        T::F32 | T::FLOAT | T::REAL => "f32",
        _ => "f64",
    }
}

fn plain_wat(u: &Udf) -> String {
    let f = u.fault.as_ref();
    let bad = f.map(|f| f.bad.clone());
    let mut params: Vec<&str> = u.inputs.iter().map(plain_type).collect();
    let mut result = plain_type(&u.ret);
    if bad == Some(Bad::ParamType) {
        params[0] = if params[0] == "i32" { "f64" } else { "i32" };
    }
    let body = match &u.body {
        Body::Ident(k) => format!("(local.get {k})"),
        Body::Const(v, _) => format!("(i64.const {v})"),
        _ => unreachable!(),
    };
    let mut body = body;
    if bad == Some(Bad::ParamType) || bad == Some(Bad::ResultType) {
        if bad == Some(Bad::ResultType) {
            result = if result == "i32" { "i64" } else { "i32" };
        }
        body = format!("({result}.const 1)");
    }
    let mut results = result.to_string();
    if let Some(Bad::ResultCount(n)) = bad {
        if n == 0 {
            results = String::new();
            body = String::new();
        } else {
            results = format!("{result} {result}");
            body = format!("{body} ({result}.const 1)");
        }
    }
    let action = match (&bad, f) {
        (Some(Bad::Trap), Some(_)) => "(unreachable)".to_string(),
        (Some(Bad::Recurse), Some(_)) => "(call $rec)".to_string(),
        _ => String::new(),
    };
    let at = f.map(|f| f.at).unwrap_or(0);
    let poison = if f.is_some_and(|f| f.poison) { "(global.set $poison (i32.const 1))" } else { "" };
    let fault = if action.is_empty() {
        String::new()
    } else {
        format!("(if (global.get $poison) (then (unreachable))) (if (i32.eq (global.get $calls) (i32.const {at})) (then {poison} {action}))")
    };
    format!(
        r#"(module {import}
  (global $calls (mut i32) (i32.const 0)) (global $poison (mut i32) (i32.const 0))
  (func $rec (call $rec) (call $rec))
  (func $f {export} {params} {results}
    {fault}
    (global.set $calls (i32.add (global.get $calls) (i32.const 1)))
    {body})
  (func $start (unreachable)) {start})"#,
        import = if bad == Some(Bad::UnknownImport) { r#"(import "env" "missing" (func))"# } else { "" },
        export = if bad == Some(Bad::NoExport(3)) { "" } else { r#"(export "f")"# },
        params = if params.is_empty() { String::new() } else { format!("(param {})", params.join(" ")) },
        results = if results.is_empty() { String::new() } else { format!("(result {results})") },
        start = if bad == Some(Bad::StartTrap) { "(start $start)" } else { "" },
    )
}

fn pack_wat(u: &Udf) -> String {
    let f = u.fault.as_ref();
    let bad = f.map(|f| f.bad.clone());
    let at = f.map(|f| f.at).unwrap_or(u32::MAX >> 1);
    let set_poison = if f.is_some_and(|f| f.poison) { "(global.set $poison (i32.const 1))" } else { "" };
    let yld = |lvl: u8| if u.yields >= lvl { "(drop (call $yield))" } else { "" };
    // fixed data: constants and bad outputs, below the heap; deep nesting gets pages of its own
    let mut data = String::new();
    let mut pages = 3;
    let mut action = String::new();
    let set_out = |e: &str| format!("{set_poison} (local.set $out {e})");
    match &bad {
        Some(Bad::Trap) => action = format!("{set_poison} (unreachable)"),
        Some(Bad::Ptr(n)) => action = set_out(&format!("(i32.const {n})")),
        Some(Bad::PtrEnd(d)) => action = set_out(&format!("(i32.sub (i32.mul (memory.size) (i32.const 65536)) (i32.const {d}))")),
        Some(Bad::Size(n)) => action = format!("{set_poison} (i32.store (local.get $out) (i32.const {n}))"),
        Some(Bad::Truncated) => action = format!("{set_poison} (i32.store (local.get $out) (i32.sub (i32.load (local.get $out)) (i32.const 1)))"),
        Some(Bad::Bytes(b)) => {
            let mut d = (b.len() as u32).to_le_bytes().to_vec();
            d.extend(b);
            data.push_str(&format!("(data (i32.const 512) \"{}\")", esc(&d)));
            action = set_out("(i32.const 512)");
        }
        Some(Bad::Deep(n)) => {
            pages = 6;
            // nested one-element arrays, written at run time in the last pages
            action = format!(
                "{set_poison} (local.set $out (i32.const 262144)) (i32.store (local.get $out) (i32.const {n})) (memory.fill (i32.const 262148) (i32.const 0x91) (i32.const {n}))"
            );
        }
        Some(Bad::Recurse) => action = format!("{set_poison} (call $rec)"),
        Some(Bad::Exit) => action = format!("{set_poison} (call $exit (i32.const 3))"),
        _ => {}
    }
    if let Body::Const(v, enc) = &u.body {
        let b = const_bytes(&u.ret, *v, *enc);
        data.push_str(&format!("(data (i32.const 64) \"{}\")", esc(&b)));
    }
    // 16-bit heap: top-down allocations end exactly at the end of the third page
    let top = 196_608u32;
    let alloc_action = match &bad {
        Some(Bad::AllocTrap) => format!("{set_poison} (unreachable)"),
        Some(Bad::AllocPtr(n)) => format!("{set_poison} (return (i32.const {n}))"),
        Some(Bad::AllocEnd(d)) => format!("{set_poison} (return (i32.sub (i32.mul (memory.size) (i32.const 65536)) (i32.const {d})))"),
        _ => String::new(),
    };
    let alloc_fault = if alloc_action.is_empty() { String::new() } else { format!("(if (i32.and (i32.eqz (global.get $inside)) (i32.eq (global.get $calls) (i32.const {at}))) (then {alloc_action}))") };
    let dealloc_fault = if bad == Some(Bad::DeallocTrap) { format!("(if (i32.eq (global.get $calls) (i32.const {}))  (then {set_poison} (unreachable)))", at.saturating_add(1)) } else { String::new() };
    let alloc = if u.top_down {
        r#"(local.set $p (i32.sub (global.get $brk) (local.get $n)))
    (if (i32.lt_s (local.get $p) (i32.const 4096)) (then (unreachable)))
    (i32.store (i32.sub (local.get $p) (i32.const 8)) (local.get $n))
    (global.set $brk (i32.sub (local.get $p) (i32.const 8)))"#
            .to_string()
    } else {
        format!(
            r#"(local.set $p (i32.add (global.get $brk) (i32.const 8)))
    (local.set $e (i32.add (local.get $p) (local.get $n)))
    (if (i32.or (i32.lt_s (local.get $n) (i32.const 0)) (i32.gt_s (local.get $e) (i32.const {}))) (then (unreachable)))
    (i32.store (global.get $brk) (local.get $n))
    (i64.store align=1 (local.get $e) (i64.const 0xA5A5A5A5A5A5A5A5))
    (global.set $brk (i32.add (local.get $e) (i32.const 8)))"#,
            top - 16
        )
    };
    let guard = if u.top_down { "" } else { "(if (i64.ne (i64.load align=1 (i32.add (local.get $p) (local.get $n))) (i64.const 0xA5A5A5A5A5A5A5A5)) (then (unreachable)))" };
    let base = if u.top_down { top } else { u.base };
    let body = match &u.body {
        Body::Ident(k) | Body::Neg(k) => format!(
            r#"(local.set $i (i32.const {k}))
    (block $b (loop $l (br_if $b (i32.eqz (local.get $i))) (local.set $p (call $skip (local.get $p))) (local.set $i (i32.sub (local.get $i) (i32.const 1))) (br $l)))
    (local.set $n (i32.sub (call $skip (local.get $p)) (local.get $p)))
    (local.set $out (call $alloc (i32.add (local.get $n) (i32.const 4))))
    (i32.store (local.get $out) (local.get $n))
    (memory.copy (i32.add (local.get $out) (i32.const 4)) (local.get $p) (local.get $n))
    {neg}"#,
            neg = if matches!(u.body, Body::Neg(_)) { "(i32.store8 (i32.add (local.get $out) (i32.const 5)) (i32.xor (i32.load8_u (i32.add (local.get $out) (i32.const 5))) (i32.const 0x80)))" } else { "" }
        ),
        Body::Sum => format!(
            r#"(local.set $i (i32.const {}))
    (block $b (loop $l (br_if $b (i32.eqz (local.get $i))) (local.set $v (i64.add (local.get $v) (call $int (local.get $p)))) (local.set $p (call $skip (local.get $p))) (local.set $i (i32.sub (local.get $i) (i32.const 1))) (br $l)))
    (local.set $out (call $alloc (i32.const 13)))
    (i32.store (local.get $out) (i32.const 9))
    (i32.store8 (i32.add (local.get $out) (i32.const 4)) (i32.const 0xd3))
    (call $put64 (i32.add (local.get $out) (i32.const 5)) (local.get $v))"#,
            u.inputs.len()
        ),
        Body::Echo => r#"(local.set $n (i32.load (local.get $in)))
    (local.set $out (call $alloc (i32.add (i32.shl (local.get $n) (i32.const 1)) (i32.const 9))))
    (i32.store (local.get $out) (i32.add (i32.shl (local.get $n) (i32.const 1)) (i32.const 5)))
    (i32.store8 (i32.add (local.get $out) (i32.const 4)) (i32.const 0xdb))
    (call $put32 (i32.add (local.get $out) (i32.const 5)) (i32.shl (local.get $n) (i32.const 1)))
    (local.set $i (i32.const 0))
    (block $b (loop $l (br_if $b (i32.eq (local.get $i) (local.get $n)))
      (i32.store8 (i32.add (i32.add (local.get $out) (i32.const 9)) (i32.shl (local.get $i) (i32.const 1))) (call $hex (i32.shr_u (i32.load8_u (i32.add (i32.add (local.get $in) (i32.const 4)) (local.get $i))) (i32.const 4))))
      (i32.store8 (i32.add (i32.add (local.get $out) (i32.const 10)) (i32.shl (local.get $i) (i32.const 1))) (call $hex (i32.and (i32.load8_u (i32.add (i32.add (local.get $in) (i32.const 4)) (local.get $i))) (i32.const 15))))
      (local.set $i (i32.add (local.get $i) (i32.const 1))) (br $l)))"#
            .to_string(),
        Body::Const(v, enc) => {
            let n = const_bytes(&u.ret, *v, *enc).len();
            format!("(local.set $out (call $alloc (i32.const {}))) (i32.store (local.get $out) (i32.const {n})) (memory.copy (i32.add (local.get $out) (i32.const 4)) (i32.const 64) (i32.const {n}))", n + 4)
        }
    };
    let exp = |k: u8, name: &str| if bad == Some(Bad::NoExport(k)) { String::new() } else { format!("(export \"{name}\")") };
    let extra = |k: u8| if bad == Some(Bad::WrongSig(k)) { "(param i64)" } else { "" };
    let call_alloc_extra = if bad == Some(Bad::WrongSig(0)) { "(i64.const 0)" } else { "" };
    let w = format!(
        r#"(module
  (import "wasi_snapshot_preview1" "sched_yield" (func $yield (result i32)))
  (import "wasi_snapshot_preview1" "proc_exit" (func $exit (param i32)))
  {unknown}
  (memory {mem} {pages} {pages})
  (global $brk (mut i32) (i32.const {base})) (global $live (mut i32) (i32.const 0))
  (global $calls (mut i32) (i32.const 0)) (global $poison (mut i32) (i32.const 0)) (global $inside (mut i32) (i32.const 0))
  {data}
  (func $rec (call $rec) (call $rec))
  (func $alloc {ealloc} (param $n i32) {xalloc} (result i32) (local $p i32) (local $e i32)
    (if (global.get $poison) (then (unreachable)))
    {y2}
    {alloc_fault}
    {alloc}
    (global.set $live (i32.add (global.get $live) (i32.const 1)))
    (local.get $p))
  (func $dealloc {edealloc} (param $p i32) (param $n i32) {xdealloc}
    (if (global.get $poison) (then (unreachable)))
    {y2}
    {dealloc_fault}
    (if (i32.ne (i32.load (i32.sub (local.get $p) (i32.const 8))) (local.get $n)) (then (unreachable)))
    {guard}
    (i32.store (i32.sub (local.get $p) (i32.const 8)) (i32.const -1))
    (global.set $live (i32.sub (global.get $live) (i32.const 1)))
    (if (i32.eqz (global.get $live)) (then (global.set $brk (i32.const {base})))))
  (func $be16 (param $p i32) (result i32) (i32.or (i32.shl (i32.load8_u (local.get $p)) (i32.const 8)) (i32.load8_u (i32.add (local.get $p) (i32.const 1)))))
  (func $be32 (param $p i32) (result i32) (i32.or (i32.shl (call $be16 (local.get $p)) (i32.const 16)) (call $be16 (i32.add (local.get $p) (i32.const 2)))))
  (func $put32 (param $p i32) (param $v i32)
    (i32.store8 (local.get $p) (i32.shr_u (local.get $v) (i32.const 24)))
    (i32.store8 (i32.add (local.get $p) (i32.const 1)) (i32.shr_u (local.get $v) (i32.const 16)))
    (i32.store8 (i32.add (local.get $p) (i32.const 2)) (i32.shr_u (local.get $v) (i32.const 8)))
    (i32.store8 (i32.add (local.get $p) (i32.const 3)) (local.get $v)))
  (func $put64 (param $p i32) (param $v i64)
    (call $put32 (local.get $p) (i32.wrap_i64 (i64.shr_u (local.get $v) (i64.const 32))))
    (call $put32 (i32.add (local.get $p) (i32.const 4)) (i32.wrap_i64 (local.get $v))))
  (func $hex (param $d i32) (result i32) (i32.add (local.get $d) (select (i32.const 48) (i32.const 87) (i32.lt_u (local.get $d) (i32.const 10)))))
  (func $skipn (param $p i32) (param $n i32) (result i32)
    (block $b (loop $l (br_if $b (i32.eqz (local.get $n))) (local.set $p (call $skip (local.get $p))) (local.set $n (i32.sub (local.get $n) (i32.const 1))) (br $l)))
    (local.get $p))
  (func $skip (param $p i32) (result i32) (local $t i32)
    (local.set $t (i32.load8_u (local.get $p)))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (if (i32.or (i32.lt_u (local.get $t) (i32.const 0x80)) (i32.ge_u (local.get $t) (i32.const 0xe0))) (then (return (local.get $p))))
    (if (i32.lt_u (local.get $t) (i32.const 0x90)) (then (unreachable)))
    (if (i32.lt_u (local.get $t) (i32.const 0xa0)) (then (return (call $skipn (local.get $p) (i32.and (local.get $t) (i32.const 15))))))
    (if (i32.lt_u (local.get $t) (i32.const 0xc0)) (then (return (i32.add (local.get $p) (i32.and (local.get $t) (i32.const 31))))))
    (if (i32.or (i32.eq (local.get $t) (i32.const 0xc2)) (i32.eq (local.get $t) (i32.const 0xc3))) (then (return (local.get $p))))
    (if (i32.or (i32.eq (local.get $t) (i32.const 0xcc)) (i32.eq (local.get $t) (i32.const 0xd0))) (then (return (i32.add (local.get $p) (i32.const 1)))))
    (if (i32.or (i32.eq (local.get $t) (i32.const 0xcd)) (i32.eq (local.get $t) (i32.const 0xd1))) (then (return (i32.add (local.get $p) (i32.const 2)))))
    (if (i32.or (i32.or (i32.eq (local.get $t) (i32.const 0xce)) (i32.eq (local.get $t) (i32.const 0xd2))) (i32.eq (local.get $t) (i32.const 0xca))) (then (return (i32.add (local.get $p) (i32.const 4)))))
    (if (i32.or (i32.or (i32.eq (local.get $t) (i32.const 0xcf)) (i32.eq (local.get $t) (i32.const 0xd3))) (i32.eq (local.get $t) (i32.const 0xcb))) (then (return (i32.add (local.get $p) (i32.const 8)))))
    (if (i32.eq (local.get $t) (i32.const 0xd9)) (then (return (i32.add (i32.add (local.get $p) (i32.const 1)) (i32.load8_u (local.get $p))))))
    (if (i32.eq (local.get $t) (i32.const 0xda)) (then (return (i32.add (i32.add (local.get $p) (i32.const 2)) (call $be16 (local.get $p))))))
    (if (i32.eq (local.get $t) (i32.const 0xdb)) (then (return (i32.add (i32.add (local.get $p) (i32.const 4)) (call $be32 (local.get $p))))))
    (if (i32.eq (local.get $t) (i32.const 0xdc)) (then (return (call $skipn (i32.add (local.get $p) (i32.const 2)) (call $be16 (local.get $p))))))
    (unreachable))
  (func $int (param $p i32) (result i64) (local $t i32)
    (local.set $t (i32.load8_u (local.get $p)))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (if (i32.lt_u (local.get $t) (i32.const 0x80)) (then (return (i64.extend_i32_u (local.get $t)))))
    (if (i32.ge_u (local.get $t) (i32.const 0xe0)) (then (return (i64.extend8_s (i64.extend_i32_u (local.get $t))))))
    (if (i32.eq (local.get $t) (i32.const 0xcc)) (then (return (i64.load8_u (local.get $p)))))
    (if (i32.eq (local.get $t) (i32.const 0xd0)) (then (return (i64.load8_s (local.get $p)))))
    (if (i32.eq (local.get $t) (i32.const 0xcd)) (then (return (i64.extend_i32_u (call $be16 (local.get $p))))))
    (if (i32.eq (local.get $t) (i32.const 0xd1)) (then (return (i64.extend16_s (i64.extend_i32_u (call $be16 (local.get $p)))))))
    (if (i32.eq (local.get $t) (i32.const 0xce)) (then (return (i64.extend_i32_u (call $be32 (local.get $p))))))
    (if (i32.eq (local.get $t) (i32.const 0xd2)) (then (return (i64.extend_i32_s (call $be32 (local.get $p))))))
    (if (i32.or (i32.eq (local.get $t) (i32.const 0xcf)) (i32.eq (local.get $t) (i32.const 0xd3))) (then (return
      (i64.or (i64.shl (i64.extend_i32_u (call $be32 (local.get $p))) (i64.const 32)) (i64.extend_i32_u (call $be32 (i32.add (local.get $p) (i32.const 4))))))))
    (unreachable))
  (func $f {ef} (param $in i32) {xf} (result i32) (local $p i32) (local $n i32) (local $i i32) (local $out i32) (local $v i64)
    (if (global.get $poison) (then (unreachable)))
    ;; there are only so many buffers
    (if (i32.gt_s (global.get $live) (i32.const 48)) (then (unreachable)))
    {y1}
    (local.set $p (i32.add (local.get $in) (i32.const 4)))
    ;; the arguments are one array
    (if (i32.ne (i32.load8_u (local.get $p)) (i32.const {head})) (then (unreachable)))
    (if (i32.ne (call $skip (local.get $p)) (i32.add (local.get $p) (i32.load (local.get $in)))) (then (unreachable)))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (global.set $inside (i32.const 1))
    {body}
    (global.set $inside (i32.const 0))
    (if (i32.eq (global.get $calls) (i32.const {at})) (then {action}))
    (global.set $calls (i32.add (global.get $calls) (i32.const 1)))
    {y1}
    (local.get $out))
  (func $start (unreachable)) {start})"#,
        unknown = if bad == Some(Bad::UnknownImport) { r#"(import "env" "missing" (func))"# } else { "" },
        mem = exp(2, "memory"),
        ealloc = exp(0, "alloc"),
        edealloc = exp(1, "dealloc"),
        ef = exp(3, "f"),
        xalloc = extra(0),
        xdealloc = extra(1),
        xf = extra(2),
        y1 = yld(1),
        y2 = yld(2),
        head = 0x90 | u.inputs.len(),
        start = if bad == Some(Bad::StartTrap) { "(start $start)" } else { "" },
    );
    if call_alloc_extra.is_empty() {
        w
    } else {
        // calls from inside pass the extra parameter too
        w.replace("(call $alloc (i32.const ", "(call $alloc (i32.const ").replace("(call $alloc ", "(call $alloc2 ").replace(
            "(func $start",
            "(func $alloc2 (param i32) (result i32) (call $alloc (local.get 0) (i64.const 0))) (func $start",
        )
    }
}

fn module(u: &Udf) -> Vec<u8> {
    if let Some(Fault { bad: Bad::Garbage(k), .. }) = &u.fault {
        let mut ok = wat::parse_str(if u.plain { plain_wat(u) } else { pack_wat(u) }).unwrap();
        match k {
            0 => return vec![],
            1 => return b"not a module".to_vec(),
            2 => ok.truncate(ok.len() / 2),
            _ => {
                let n = ok.len();
                ok[n / 3..n / 3 + 8].iter_mut().for_each(|b| *b = 0xff);
            }
        }
        return ok;
    }
    let w = if u.plain { plain_wat(u) } else { pack_wat(u) };
    match wat::parse_str(&w) {
        Ok(b) => b,
        Err(e) => panic!("harness: bad guest: {e}\n{w}"),
    }
}

// ---------------------------------------------------------------- values and model

#[derive(Clone, Debug, PartialEq)]
enum V {
    I(i64),
    F(u32),
    D(u64),
    S(String),
    B(bool),
    N(i128),
}

fn value(t: &T, rng: &mut Rng) -> V {
    let int = |rng: &mut Rng, lo: i64, hi: i64| -> i64 {
        match rng.below(8) {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => *rng.pick(&[1i64, -1, 127, 128, -32, -33, 255, 256, -128, -129]),
            4 => *rng.pick(&[32767i64, 32768, -32768, 65535, 65536]),
            5 => rng.range(0, 20) as i64 - 10,
            _ => (rng.next() as i64) >> rng.below(64),
        }
        .clamp(lo, hi)
    };
    match t {
        T::SMALLINT => V::I(int(rng, i16::MIN as i64, i16::MAX as i64)),
        T::INT | T::I32 | T::DATE => V::I(int(rng, i32::MIN as i64, i32::MAX as i64)),
        T::BIGINT | T::I64 | T::TIMESTAMP => V::I(int(rng, i64::MIN, i64::MAX)),
        T::F32 | T::FLOAT | T::REAL => V::F(match rng.below(6) {
            0 => *rng.pick(&[0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::MAX, 1e-45]),
            _ => (rng.next() as i32 as f32) / 1024.0,
        }
        .to_bits()),
        T::F64 | T::DOUBLE => V::D(match rng.below(6) {
            0 => *rng.pick(&[0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX, 5e-324]),
            _ => (rng.next() as i64 as f64) / 65536.0,
        }
        .to_bits()),
        T::TEXT | T::CHAR | T::VARCHAR => {
            let n = match rng.below(10) {
                0 => 0,
                1 => 31,
                2 => 32,
                3 if rng.chance(300) => *rng.pick(&[255usize, 256, 3000]),
                _ => rng.below(12) as usize,
            };
            V::S((0..n).map(|_| *rng.pick(&['a', 'z', '\0', 'é', '漢', '😀', '"', '\n', ' ', '0'])).collect())
        }
        T::BOOLEAN => V::B(rng.chance(500)),
        T::DECIMAL { precision, .. } => {
            let max = 10i128.pow(*precision as u32) - 1;
            let raw = ((rng.next() as i128) << 64) | rng.next() as i128;
            V::N(match rng.below(8) {
                0 => 0,
                1 => max,
                2 => -max,
                3 => *rng.pick(&[1i128, -1, 5, -5, 1 << 63, -(1 << 63), (1 << 63) - 1, 1 << 64, -(1 << 64), (1 << 64) - 1, 3 << 63]),
                4 => (raw >> 64) % (max + 1),
                _ => (raw >> rng.below(127)) % (max + 1),
            }
            .clamp(-max, max))
        }
    }
}

fn arrow_type(t: &T) -> DataType {
    match t {
        T::SMALLINT => DataType::Int16,
        T::INT | T::I32 => DataType::Int32,
        T::BIGINT | T::I64 => DataType::Int64,
        T::DATE => DataType::Date32,
        T::TIMESTAMP => DataType::Timestamp(TimeUnit::Nanosecond, None),
        T::F32 | T::FLOAT | T::REAL => DataType::Float32,
        T::F64 | T::DOUBLE => DataType::Float64,
        T::TEXT | T::CHAR | T::VARCHAR => DataType::Utf8,
        T::BOOLEAN => DataType::Boolean,
        T::DECIMAL { precision, scale } => DataType::Decimal128(*precision, *scale),
    }
}

fn to_array(t: &T, v: &[V]) -> ArrayRef {
    let i = || v.iter().map(|x| if let V::I(i) = x { *i } else { unreachable!() });
    match arrow_type(t) {
        DataType::Int16 => Arc::new(Int16Array::from_iter_values(i().map(|x| x as i16))),
        DataType::Int32 => Arc::new(Int32Array::from_iter_values(i().map(|x| x as i32))),
        DataType::Int64 => Arc::new(Int64Array::from_iter_values(i())),
        DataType::Date32 => Arc::new(Date32Array::from_iter_values(i().map(|x| x as i32))),
        DataType::Timestamp(..) => Arc::new(TimestampNanosecondArray::from_iter_values(i())),
        DataType::Float32 => Arc::new(Float32Array::from_iter_values(v.iter().map(|x| if let V::F(b) = x { f32::from_bits(*b) } else { unreachable!() }))),
        DataType::Float64 => Arc::new(Float64Array::from_iter_values(v.iter().map(|x| if let V::D(b) = x { f64::from_bits(*b) } else { unreachable!() }))),
        DataType::Utf8 => Arc::new(StringArray::from_iter_values(v.iter().map(|x| if let V::S(s) = x { s.as_str() } else { unreachable!() }))),
        DataType::Boolean => Arc::new(BooleanArray::from(v.iter().map(|x| *x == V::B(true)).collect::<Vec<_>>())),
        DataType::Decimal128(p, s) => Arc::new(Decimal128Array::from_iter_values(v.iter().map(|x| if let V::N(n) = x { *n } else { unreachable!() })).with_precision_and_scale(p, s).unwrap()),
        _ => unreachable!(),
    }
}
fn from_array(a: &ArrayRef) -> Option<Vec<V>> {
    if a.null_count() > 0 {
        return None;
    }
    let n = a.len();
    macro_rules! p {
        ($t:ty, $f:expr) => {{
            let a = a.as_any().downcast_ref::<$t>()?;
            (0..n).map(|i| $f(a.value(i))).collect()
        }};
    }
    Some(match a.data_type() {
        DataType::Int16 => p!(Int16Array, |x| V::I(x as i64)),
        DataType::Int32 => p!(Int32Array, |x| V::I(x as i64)),
        DataType::Int64 => p!(Int64Array, V::I),
        DataType::Date32 => p!(Date32Array, |x| V::I(x as i64)),
        DataType::Timestamp(..) => p!(TimestampNanosecondArray, V::I),
        DataType::Float32 => p!(Float32Array, |x: f32| V::F(x.to_bits())),
        DataType::Float64 => p!(Float64Array, |x: f64| V::D(x.to_bits())),
        DataType::Utf8 => p!(StringArray, |x: &str| V::S(x.to_string())),
        DataType::Boolean => p!(BooleanArray, V::B),
        DataType::Decimal128(..) => p!(Decimal128Array, V::N),
        _ => return None,
    })
}

/// What the guest computes for one row; None: no value of the declared type, the evaluation fails.
fn model(u: &Udf, row: &[V]) -> Option<V> {
    match &u.body {
        Body::Const(v, _) => Some(if class(&u.ret) == Class::Text { V::S(const_text(*v)) } else { V::I(*v) }),
        Body::Sum => Some(V::I(row.iter().fold(0i64, |a, v| if let V::I(i) = v { a.wrapping_add(*i) } else { unreachable!() }))),
        Body::Neg(k) => Some(match &row[*k] {
            V::F(b) => V::F(b ^ 0x8000_0000),
            V::D(b) => V::D(b ^ (1 << 63)),
            _ => unreachable!(),
        }),
        Body::Ident(k) => {
            let v = row[*k].clone();
            if u.plain {
                return Some(v);
            }
            match (v, &u.ret) {
                (V::I(i), T::SMALLINT) => i16::try_from(i).ok().map(|_| V::I(i)),
                (V::I(i), T::INT | T::I32 | T::DATE) => i32::try_from(i).ok().map(|_| V::I(i)),
                (V::I(i), _) => Some(V::I(i)),
                (V::F(b), T::F64 | T::DOUBLE) => Some(V::D((f32::from_bits(b) as f64).to_bits())),
                (v, _) => Some(v),
            }
        }
        Body::Echo => None,
    }
}

fn echo_ok(u: &Udf, row: &[V], got: &V) -> Result<(), String> {
    let V::S(h) = got else { return Err("not text".into()) };
    let b = hex::decode(h).map_err(|e| e.to_string())?;
    let v: rmpv::Value = rmpv::decode::read_value(&mut &b[..]).map_err(|e| format!("the guest was given {h}: {e}"))?;
    let want = rmpv::Value::Array(
        row.iter()
            .zip(&u.inputs)
            .map(|(v, t)| match v {
                V::I(i) => rmpv::Value::from(*i),
                V::F(b) => rmpv::Value::F32(f32::from_bits(*b)),
                V::D(b) => rmpv::Value::F64(f64::from_bits(*b)),
                V::S(s) => rmpv::Value::from(s.as_str()),
                V::B(b) => rmpv::Value::from(*b),
                V::N(n) => {
                    let T::DECIMAL { precision, scale } = t else { unreachable!() };
                    rmpv::Value::Array(vec![rmpv::Value::from(*precision), rmpv::Value::from(*scale), rmpv::Value::from((*n >> 64) as i64), rmpv::Value::from(*n as i64)])
                }
            })
            .collect(),
    );
    // NaN is not equal to itself
    if format!("{v:?}") != format!("{want:?}") {
        return Err(format!("the guest was given {v:?} for {want:?}"));
    }
    Ok(())
}

fn creation_fails(u: &Udf) -> bool {
    match u.fault.as_ref().map(|f| &f.bad) {
        Some(Bad::NoExport(_) | Bad::WrongSig(_) | Bad::StartTrap | Bad::UnknownImport | Bad::Garbage(_) | Bad::WrongEntry | Bad::Unsupported(_)) => true,
        _ => false,
    }
}
/// Whether an evaluation over this many rows runs into the guest's fault.
fn evaluation_fails(u: &Udf, rows: usize) -> bool {
    match &u.fault {
        None => false,
        Some(f) => match f.bad {
            Bad::ResultType | Bad::ParamType | Bad::ResultCount(_) => rows > 0,
            _ => rows > f.at as usize,
        },
    }
}

fn create(u: &Udf, bytes: &[u8]) -> datafusion_common::Result<ScalarUDF> {
    let (mut inputs, mut ret) = (u.inputs.clone(), u.ret.clone());
    let entry = if let Some(Fault { bad: Bad::WrongEntry, .. }) = &u.fault { "g" } else { "f" };
    if let Some(Fault { bad: Bad::Unsupported(k), .. }) = &u.fault {
        let t = [T::TEXT, T::DATE, T::BOOLEAN, T::SMALLINT, T::TIMESTAMP, T::DECIMAL { precision: 5, scale: 2 }][(*k as usize) % 6].clone();
        if inputs.is_empty() || k % 2 == 1 {
            ret = t;
        } else {
            inputs[0] = t;
        }
    }
    create_udf_from_wasm(if u.plain { &CreateFunctionLanguage::Wasm } else { &CreateFunctionLanguage::WasmMessagePack }, "fun", bytes, entry, &inputs, &ret, Volatility::Volatile)
}

fn wrong_column(k: u8, rows: usize, declared: &T) -> ArrayRef {
    let n = rows.max(1);
    let all: Vec<ArrayRef> = vec![
        Arc::new(Int16Array::from(vec![1i16; n])),
        Arc::new(Int32Array::from(vec![1; n])),
        Arc::new(Int64Array::from(vec![1i64; n])),
        Arc::new(Float32Array::from(vec![1f32; n])),
        Arc::new(Float64Array::from(vec![1f64; n])),
        Arc::new(StringArray::from(vec!["1"; n])),
        Arc::new(LargeStringArray::from(vec!["1"; n])),
        Arc::new(BooleanArray::from(vec![true; n])),
        Arc::new(TimestampSecondArray::from(vec![1i64; n])),
        Arc::new(UInt32Array::from(vec![1u32; n])),
    ];
    let mut k = k as usize % all.len();
    while *all[k].data_type() == arrow_type(declared) {
        k = (k + 1) % all.len();
    }
    all[k].clone()
}

pub fn meta(prop: &str, m: &mut Meta) {
    m.rule = if prop == "W01" { "runs in which at least one evaluation returned rows while another task was under way, or several evaluations returned rows".into() } else { "runs in which at least one guest fault was reached".into() };
    m.state_measure = "hash of where every evaluation is (task, guest yield point), at every step; plus hash of the schedule so far".into();
    m.real = vec!["src/wasm_udf/wasm.rs", "src/wasm_udf/data_types.rs", "wasmtime 25, wasi-common", "DataFusion ScalarUDF, Arrow arrays"];
    m.stub = vec!["guests: generated WebAssembly modules", "thread scheduling (WASI sched_yield of the guests, evaluation boundaries)"];
    m.assumptions = vec!["arguments are not NULL, DECIMAL scales are not negative".into(), "guests end: the code has no limit on guest execution time".into()];
    m.batch = 40;
    m.probes = if prop == "W01" { vec!["rows checked", "interleaved evaluations"] } else { vec!["guest faults reached", "healthy evaluations beside faults"] };
}

pub fn run(prop: &str, p: &Plan, d: Decider) -> RunResult {
    gate::reset(d);
    let mods: Arc<Vec<Vec<u8>>> = Arc::new(p.udfs.iter().map(module).collect());
    BIGGEST.store(0, Ordering::SeqCst);
    MEASURE.store(true, Ordering::SeqCst);
    ON.store(true, Ordering::SeqCst);
    let bad: Arc<Mutex<Option<Violation>>> = Default::default();
    let fail = |kind: &str, detail: String| {
        let mut b = bad.lock().unwrap();
        if b.is_none() {
            *b = Some(Violation { kind: kind.into(), detail });
        }
    };
    std::panic::set_hook(Box::new(|_| {}));
    let made: Vec<Option<Arc<ScalarUDF>>> = p
        .udfs
        .iter()
        .zip(mods.iter())
        .enumerate()
        .map(|(i, (u, b))| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| create(u, b))) {
            Err(e) => {
                fail("panic", format!("creating function {i} panicked: {} ({:?})", msg(&e), u.fault));
                None
            }
            Ok(Err(e)) => {
                let may = matches!(u.fault.as_ref().map(|f| &f.bad), Some(Bad::ResultType | Bad::ParamType | Bad::ResultCount(_)));
                if !creation_fails(u) && !may {
                    fail("spurious-error", format!("creating function {i} failed: {}", short(&e.to_string())));
                } else {
                    shared().count(&format!("fault:{}", bad_name(u)));
                    shared().count("guest faults reached");
                }
                None
            }
            Ok(Ok(f)) => {
                if creation_fails(u) {
                    fail("fault-hidden", format!("function {i} was created from a module with {:?}", u.fault));
                }
                Some(Arc::new(f))
            }
        })
        .collect();
    let made = Arc::new(made);
    let running = Arc::new(AtomicUsize::new(0));
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, evals) in p.tasks.iter().cloned().enumerate() {
        let (made, mods, bad, udfs, running) = (made.clone(), mods.clone(), bad.clone(), p.udfs.clone(), running.clone());
        tasks.push(Box::new(move || {
            let fail = |kind: &str, detail: String| {
                let mut b = bad.lock().unwrap();
                if b.is_none() {
                    *b = Some(Violation { kind: kind.into(), detail });
                }
            };
            for (k, e) in evals.iter().enumerate() {
                gate("evaluation");
                let u = &udfs[e.udf];
                let name = format!("task {t} evaluation {k} (function {}, {} rows)", e.udf, e.rows);
                let fun = if e.fresh && made[e.udf].is_some() {
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| create(u, &mods[e.udf]))) {
                        Ok(Ok(f)) => Some(Arc::new(f)),
                        Ok(Err(x)) => {
                            fail("spurious-error", format!("{name}: creating the function failed: {}", short(&x.to_string())));
                            None
                        }
                        Err(x) => {
                            fail("panic", format!("{name}: creating the function panicked: {}", msg(&x)));
                            None
                        }
                    }
                } else {
                    made[e.udf].clone()
                };
                let Some(fun) = fun else { continue };
                // arguments
                let mut rng = Rng::new(e.seed);
                let all_scalar = e.forms.iter().all(|f| *f == 2);
                let rows = if all_scalar { 1 } else { e.rows };
                let mut cols: Vec<Vec<V>> = vec![];
                let mut args: Vec<ColumnarValue> = vec![];
                for (ty, form) in u.inputs.iter().zip(&e.forms) {
                    let mut v: Vec<V> = (0..rows.max(1) + 3).map(|_| value(ty, &mut rng)).collect();
                    match form {
                        2 => {
                            let a = to_array(ty, &v[..1]);
                            args.push(ColumnarValue::Scalar(ScalarValue::try_from_array(&a, 0).unwrap()));
                            v = vec![v[0].clone(); rows];
                        }
                        1 => {
                            args.push(ColumnarValue::Array(to_array(ty, &v).slice(2, rows)));
                            v = v[2..2 + rows].to_vec();
                        }
                        _ => {
                            v.truncate(rows);
                            args.push(ColumnarValue::Array(to_array(ty, &v)));
                        }
                    }
                    cols.push(v);
                }
                let mut must_fail = evaluation_fails(u, rows);
                if must_fail {
                    shared().count(&format!("fault:{}", bad_name(u)));
                    shared().count("guest faults reached");
                }
                match &e.wrong {
                    Some(Wrong::Count(more)) => {
                        must_fail = true;
                        if *more {
                            args.push(args[0].clone());
                        } else {
                            args.pop();
                        }
                    }
                    Some(Wrong::Type(c, ty)) if rows > 0 => {
                        must_fail = true;
                        args[*c] = ColumnarValue::Array(wrong_column(*ty, rows, &u.inputs[*c]));
                    }
                    _ => {}
                }
                let want: Option<Vec<V>> = if u.body == Body::Echo { None } else { (0..rows).map(|r| model(u, &cols.iter().map(|c| c[r].clone()).collect::<Vec<_>>())).collect() };
                if want.is_none() && u.body != Body::Echo {
                    must_fail = true;
                }
                if running.fetch_add(1, Ordering::SeqCst) > 0 {
                    shared().count("interleaved evaluations");
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fun.invoke_batch(&args, if all_scalar { e.rows } else { rows })));
                running.fetch_sub(1, Ordering::SeqCst);
                let outcome = match r {
                    Err(x) => {
                        fail("panic", format!("{name}: panicked: {} (fault {:?}, wrong {:?}, forms {:?})", msg(&x), u.fault, e.wrong, e.forms));
                        "panic".to_string()
                    }
                    Ok(Err(x)) => {
                        if !must_fail {
                            fail("spurious-error", format!("{name}: failed: {} (forms {:?})", short(&x.to_string()), e.forms));
                        }
                        "error".to_string()
                    }
                    Ok(Ok(v)) => {
                        let (arr, scalar) = match v {
                            ColumnarValue::Array(a) => (a, false),
                            ColumnarValue::Scalar(s) => (s.to_array().unwrap(), true),
                        };
                        if must_fail {
                            fail(if e.wrong.is_some() { "wrong-argument" } else { "fault-hidden" }, format!("{name}: returned {} rows (fault {:?}, wrong {:?})", arr.len(), u.fault, e.wrong));
                        } else {
                            let len_ok = if all_scalar { (scalar && arr.len() == 1) || (!scalar && (arr.len() == e.rows || (arr.len() == 1 && !u.inputs.is_empty()))) } else { !scalar && arr.len() == rows };
                            if !len_ok {
                                fail("wrong-length", format!("{name}: returned {} rows (scalar: {scalar}), forms {:?}", arr.len(), e.forms));
                            } else if *arr.data_type() != arrow_type(&u.ret) {
                                fail("wrong-type", format!("{name}: returned {:?}, declared {:?}", arr.data_type(), u.ret));
                            } else {
                                match from_array(&arr) {
                                    None => fail("wrong-value", format!("{name}: returned NULLs")),
                                    Some(got) => {
                                        for (r, g) in got.iter().enumerate() {
                                            let row: Vec<V> = cols.iter().map(|c| c[if all_scalar { 0 } else { r }].clone()).collect();
                                            if u.body == Body::Echo {
                                                if let Err(x) = echo_ok(u, &row, g) {
                                                    fail("wrong-input", format!("{name}: row {r}: {x}"));
                                                }
                                            } else {
                                                let w = &want.as_ref().unwrap()[if all_scalar { 0 } else { r }];
                                                if g != w {
                                                    fail("wrong-value", format!("{name}: row {r} is {g:?}, the guest computes {w:?} (arguments {row:?})"));
                                                }
                                            }
                                        }
                                        let mut s = shared();
                                        *s.stats.entry("rows checked".into()).or_default() += got.len() as u64;
                                        if udfs.iter().any(|u| u.fault.is_some()) && u.fault.is_none() {
                                            s.count("healthy evaluations beside faults");
                                        }
                                    }
                                }
                            }
                        }
                        format!("{} rows", arr.len())
                    }
                };
                let big = BIGGEST.swap(0, Ordering::SeqCst);
                if big > BIG {
                    fail("huge-allocation", format!("{name}: {big} bytes were allocated at once (fault {:?})", u.fault));
                }
                let mut s = shared();
                s.count("evaluations");
                s.note(format!("{name}: {outcome}"));
            }
        }));
    }
    let big = BIGGEST.swap(0, Ordering::SeqCst);
    if big > BIG {
        fail("huge-allocation", format!("creating the functions: {big} bytes were allocated at once"));
    }
    let mut pos = vec![0u64; p.tasks.len()];
    let out = gate::run(tasks, p.sticky, 400_000, |st: &[St], labels| {
        for (i, l) in labels.iter().enumerate() {
            if l == "evaluation" && st[i] == St::Parked {
                pos[i] += 1;
            }
        }
        if pos.len() > 1 { Some(simcore::hash_str(&format!("{st:?}{labels:?}{pos:?}"))) } else { None }
    });
    ON.store(false, Ordering::SeqCst);
    MEASURE.store(false, Ordering::SeqCst);
    let _ = std::panic::take_hook();
    let mut res = RunResult::default();
    let mut s = shared();
    res.violation = bad.lock().unwrap().take();
    if out.stuck && res.violation.is_none() {
        res.violation = Some(Violation { kind: "stuck".into(), detail: "an evaluation does not end".into() });
    }
    res.stats = std::mem::take(&mut s.stats);
    res.states = out.states;
    res.states.truncate(2000);
    res.steps = out.steps;
    let g = |k: &str| res.stats.get(k).copied().unwrap_or(0);
    res.nontrivial = if prop == "W01" { g("rows checked") > 0 && g("evaluations") > 1 } else { g("guest faults reached") > 0 };
    res.log = std::mem::take(&mut s.log);
    res.decisions = std::mem::take(&mut s.d.log);
    res
}

fn bad_name(u: &Udf) -> String {
    let s = format!("{:?}", u.fault.as_ref().unwrap().bad);
    format!("guest {}{}", s.split(['(', ' ']).next().unwrap_or(""), if u.plain { " (plain)" } else { "" })
}
fn msg(e: &Box<dyn std::any::Any + Send>) -> String {
    short(&e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
fn short(s: &str) -> String {
    s.chars().take(300).collect()
}
