//! The simulated clock, and the system calls through which a program reads time, sleeps or draws
//! entropy. While a thread takes part in a simulated run (`enter`), those calls answer from the
//! simulation; everywhere else they go to the kernel.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
}
/// nanoseconds since the run began
static NOW: AtomicU64 = AtomicU64::new(0);
/// what the wall clock shows at the run's beginning (ns since 1970), jumps included
static WALL: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static SLEEPS: AtomicU64 = AtomicU64::new(0);
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static STALLS: AtomicU64 = AtomicU64::new(0);
static JUMPS: AtomicU64 = AtomicU64::new(0);

/// Every run begins at the same instant: 2024-02-29 23:59:58 UTC, a day after boot.
const START: i64 = 1_709_251_198_000_000_000;
const BOOT: u64 = 86_400_000_000_000;
/// A look at the clock takes this long.
const LOOK: u64 = 100;

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Used {
    pub now: u64,
    pub reads: u64,
    pub sleeps: u64,
    pub entropy: u64,
    pub stalls: u64,
    pub jumps: u64,
}

/// A new run.
#[inline(never)]
pub fn reset() {
    NOW.store(0, Relaxed);
    WALL.store(START, Relaxed);
    for x in [&READS, &SLEEPS, &ENTROPY, &STALLS, &JUMPS] {
        x.store(0, Relaxed);
    }
}
#[inline(never)]
pub fn used() -> Used {
    Used {
        now: NOW.load(Relaxed),
        reads: READS.load(Relaxed),
        sleeps: SLEEPS.load(Relaxed),
        entropy: ENTROPY.load(Relaxed),
        stalls: STALLS.load(Relaxed),
        jumps: JUMPS.load(Relaxed),
    }
}
/// This thread lives in simulated time until `leave`.
#[inline(never)]
pub fn enter() {
    IN.with(|x| x.set(true))
}
#[inline(never)]
pub fn leave() {
    IN.with(|x| x.set(false))
}
/// Restores what the thread lived in, also when unwound.
struct Back(bool);
impl Drop for Back {
    fn drop(&mut self) {
        IN.with(|x| x.set(self.0))
    }
}
/// Runs `f` (the simulator's own) in real time.
pub fn real<T>(f: impl FnOnce() -> T) -> T {
    let _b = Back(IN.with(|x| x.replace(false)));
    f()
}
#[inline(never)]
pub fn advance(ns: u64) {
    NOW.fetch_add(ns, Relaxed);
    if ns >= 1_000_000_000 {
        STALLS.fetch_add(1, Relaxed);
    }
}
/// What the wall clock shows at the run's beginning.
#[inline(never)]
pub fn set_wall(ns: i64) {
    WALL.store(ns, Relaxed);
}
/// The wall clock is set.
#[inline(never)]
pub fn jump(ns: i64) {
    let w = WALL.load(Relaxed);
    WALL.store(w.saturating_add(ns).clamp(-(1 << 61), 1 << 61), Relaxed);
    JUMPS.fetch_add(1, Relaxed);
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
#[cfg(target_arch = "x86_64")]
mod nr {
    pub const CLOCK_GETTIME: i64 = 228;
    pub const CLOCK_NANOSLEEP: i64 = 230;
    pub const GETRANDOM: i64 = 318;
}
#[cfg(target_arch = "aarch64")]
mod nr {
    pub const CLOCK_GETTIME: i64 = 113;
    pub const CLOCK_NANOSLEEP: i64 = 115;
    pub const GETRANDOM: i64 = 278;
}

fn inside() -> bool {
    // (not while the thread's locals go away)
    IN.try_with(|x| x.get()).unwrap_or(false)
}
fn split(ns: i64) -> Timespec {
    Timespec { sec: ns.div_euclid(1_000_000_000), nsec: ns.rem_euclid(1_000_000_000) }
}

/// # Safety
/// As in POSIX.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if inside() {
        let wall = match id {
            // real time, coarse, TAI
            0 | 5 | 11 => true,
            // monotonic, raw, coarse, since boot
            1 | 4 | 6 | 7 => false,
            _ => return syscall(nr::CLOCK_GETTIME, id as i64, t) as i32,
        };
        READS.fetch_add(1, Relaxed);
        let now = NOW.fetch_add(LOOK, Relaxed);
        *t = if wall {
            split(WALL.load(Relaxed).saturating_add(now as i64))
        } else {
            split((BOOT + now) as i64)
        };
        return 0;
    }
    syscall(nr::CLOCK_GETTIME, id as i64, t) as i32
}
unsafe fn pass(t: *const Timespec) -> i32 {
    SLEEPS.fetch_add(1, Relaxed);
    advance(((*t).sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).nsec.max(0) as u64));
    0
}
/// # Safety
/// As in POSIX.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const Timespec, left: *mut Timespec) -> i32 {
    if inside() {
        return pass(t);
    }
    syscall(nr::CLOCK_NANOSLEEP, 1i64, 0i64, t, left) as i32
}
/// # Safety
/// As in POSIX.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const Timespec, left: *mut Timespec) -> i32 {
    if inside() {
        if flags == 0 {
            return pass(t);
        }
        SLEEPS.fetch_add(1, Relaxed);
        let until = ((*t).sec as i128 * 1_000_000_000 + (*t).nsec as i128).clamp(0, i64::MAX as i128) as i64;
        let now = NOW.load(Relaxed);
        let at = if id == 0 { WALL.load(Relaxed).saturating_add(now as i64) } else { (BOOT + now) as i64 };
        advance(until.saturating_sub(at).max(0) as u64);
        return 0;
    }
    if syscall(nr::CLOCK_NANOSLEEP, id as i64, flags as i64, t, left) == 0 {
        0
    } else {
        *__errno_location()
    }
}
/// # Safety
/// As in Linux.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if inside() {
        // the same in every run: what is asked for once per process would not be the run's otherwise
        ENTROPY.fetch_add(1, Relaxed);
        for i in 0..n {
            *p.add(i) = (i as u8).wrapping_mul(0x9d) ^ 0x5a;
        }
        return n as isize;
    }
    syscall(nr::GETRANDOM, p, n, flags as i64) as isize
}
