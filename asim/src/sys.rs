//! The C library's clocks and random numbers, under the simulator's control.
use simcore::Rng;
use std::ffi::{c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;

/// Simulated time passed since the start of the run.
static ELAPSED: AtomicU64 = AtomicU64::new(0);
/// How far the wall clock is off.
static SKEW_US: AtomicI64 = AtomicI64::new(0);
/// Reads of the clock since simulated time last moved: each takes a nanosecond, so that no two reads
/// give the same time (time does not pass while code runs, but no code can tell).
static TICKS: AtomicU64 = AtomicU64::new(0);
static TICKS_AT: AtomicU64 = AtomicU64::new(0);
static RNG: Mutex<Option<Rng>> = Mutex::new(None);
const EPOCH_S: i64 = 1_750_000_000;

pub fn reset() {
    ELAPSED.store(0, Ordering::SeqCst);
    SKEW_US.store(0, Ordering::SeqCst);
    TICKS.store(0, Ordering::SeqCst);
    TICKS_AT.store(0, Ordering::SeqCst);
    *RNG.lock().unwrap_or_else(|e| e.into_inner()) = Some(Rng::new(0x5eaf0171));
}
pub fn elapsed_us() -> u64 {
    sync();
    ELAPSED.load(Ordering::SeqCst)
}
pub fn jump_wall_clock_us(us: i64) {
    SKEW_US.fetch_add(us, Ordering::SeqCst);
}
pub fn now_s() -> i64 {
    EPOCH_S + (elapsed_us() as i64 + SKEW_US.load(Ordering::SeqCst)).div_euclid(1_000_000)
}

thread_local! {
    /// The runtime's paused clock, while it runs: its instant at the start and the time at that point.
    static CLOCK: std::cell::Cell<Option<(tokio::time::Instant, u64)>> = const { std::cell::Cell::new(None) };
}
pub fn attach_clock(c: Option<tokio::time::Instant>) {
    sync();
    CLOCK.with(|k| k.set(c.map(|t| (t, ELAPSED.load(Ordering::SeqCst)))));
}
/// Catch up with the runtime's clock.
fn sync() {
    if let Some((t0, base)) = CLOCK.with(|k| k.get()) {
        CLOCK.with(|k| k.set(None));
        ELAPSED.fetch_max(base + t0.elapsed().as_micros() as u64, Ordering::SeqCst);
        CLOCK.with(|k| k.set(Some((t0, base))));
    }
}

thread_local! {
    pub static SIM_THREAD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn sim_thread() -> bool {
    SIM_THREAD.try_with(|t| t.get()).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if sim_thread() && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_REALTIME) {
        sync();
        let at = ELAPSED.load(Ordering::Relaxed);
        if TICKS_AT.swap(at, Ordering::Relaxed) != at {
            TICKS.store(0, Ordering::Relaxed);
        }
        let tick = TICKS.fetch_add(1, Ordering::Relaxed).min(999_999) as i64;
        let us = if clk == libc::CLOCK_MONOTONIC {
            1_000_000_000_000 + ELAPSED.load(Ordering::Relaxed) as i64
        } else {
            EPOCH_S * 1_000_000 + ELAPSED.load(Ordering::Relaxed) as i64 + SKEW_US.load(Ordering::Relaxed)
        };
        let ns = us * 1000 + tick;
        (*ts).tv_sec = ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    raw(libc::SYS_clock_gettime, [clk as c_long, ts as c_long, 0, 0, 0, 0]) as c_int
}
/// The kernel's, without the C library.
unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}
/// Some libraries ask for random numbers this way.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && sim_thread() {
        return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long;
    }
    raw(n, [a, b, c, d, e, f])
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    if sim_thread() {
        if let Some(r) = RNG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            r.fill(s);
            return n as isize;
        }
    }
    raw(libc::SYS_getrandom, [buf as c_long, n as c_long, flags as c_long, 0, 0, 0]) as isize
}
