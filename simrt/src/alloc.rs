//! Counting allocator: measures the memory a single call needs, and turns run-away allocation into a
//! clean abort of the worker process (which the driver reports) instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
/// everything ever allocated: copying the same bytes again and again shows here
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

#[inline(never)]
fn add(n: usize) -> bool {
    TOTAL.fetch_add(n, Relaxed);
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > CAP.load(Relaxed) {
        CUR.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(c, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !add(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[inline(never)]
pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed);
}
#[inline(never)]
pub fn reset_peak() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
#[inline(never)]
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
#[inline(never)]
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread in milliseconds.
#[inline(never)]
pub fn cpu_ms() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // 3: CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        return 0;
    }
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}
