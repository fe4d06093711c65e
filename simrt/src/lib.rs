//! Points between two instructions of the code under test at which the simulated scheduler may run
//! another party. tools/rustc-points compiles dlhn and the simulator so that every basic block, load
//! and store calls in here; this crate itself is compiled without. Nothing happens unless the thread
//! has armed its hook.
use std::cell::{Cell, RefCell};

/// Called where the countdown ends, with `true` at an access to a static; returns the next countdown.
pub type Hook = Box<dyn FnMut(bool) -> u64>;

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static SHARED: Cell<u64> = const { Cell::new(0) };
    static WEIGHT: Cell<u64> = const { Cell::new(1) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

#[inline(never)]
fn point(weight: u64, shared: bool) {
    LEFT.with(|l| {
        let n = l.get();
        if n == 0 {
            return;
        }
        SEEN.with(|s| s.set(s.get() + 1));
        if n > weight {
            l.set(n - weight);
            return;
        }
        l.set(0);
        let h = HOOK.with(|h| h.borrow_mut().take());
        if let Some(mut h) = h {
            let next = h(shared);
            HOOK.with(|x| *x.borrow_mut() = Some(h));
            l.set(next);
        }
    })
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point(1, false)
}

extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
}
#[inline(never)]
fn access(p: *const u8) {
    if LEFT.with(|l| l.get()) == 0 {
        return;
    }
    let (a, b) = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize);
    if (a..b).contains(&(p as usize)) {
        SHARED.with(|s| s.set(s.get() + 1));
        point(WEIGHT.with(|w| w.get()), true);
    }
}
macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(p: *const u8) {
            access(p)
        }
    )* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// Until `disarm`, this thread's points count down from `first`; an access to a static counts `weight`.
#[inline(never)]
pub fn arm(first: u64, weight: u64, h: Hook) {
    HOOK.with(|x| *x.borrow_mut() = Some(h));
    SEEN.with(|s| s.set(0));
    SHARED.with(|s| s.set(0));
    WEIGHT.with(|w| w.set(weight));
    LEFT.with(|l| l.set(first));
}
/// Points and accesses to statics passed since `arm`.
#[inline(never)]
pub fn disarm() -> (u64, u64) {
    LEFT.with(|l| l.set(0));
    drop(HOOK.with(|x| x.borrow_mut().take()));
    (SEEN.with(|s| s.get()), SHARED.with(|s| s.get()))
}
/// Runs `f` (the simulator's own code) without points.
#[inline(never)]
pub fn pause() -> u64 {
    LEFT.with(|l| l.replace(0))
}
#[inline(never)]
pub fn resume(n: u64) {
    LEFT.with(|l| l.set(n))
}
/// Whether this program was built with points.
#[inline(never)]
pub fn built_in() -> bool {
    option_env!("SIM_POINTS").is_some()
}

pub mod alloc;
pub mod clock;
