//! Coverage and step counting. The crate under test (and only it) is compiled with SanitizerCoverage
//! (see ../sancov-rustc.sh): every executed edge calls `__sanitizer_cov_trace_pc_guard`. The counts drive the
//! coverage-guided part of the search, and their sum is the deterministic measure of work that Y01 bounds.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

static GUARDS: AtomicUsize = AtomicUsize::new(1);

pub struct State {
    pub map: Vec<u8>,
    pub steps: u64,
    pub total: u64,
    pub budget: u64,
    pub stack_base: usize,
    pub stack_limit: usize,
    pub max_stack: usize,
}

thread_local! {
    static ST: Cell<*mut State> = const { Cell::new(std::ptr::null_mut()) };
}

/// Called on an exceeded budget, from inside the code under test: must not unwind and must not return.
pub static OVERRUN: OnceLock<fn(what: &str) -> !> = OnceLock::new();

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = GUARDS.fetch_add(1, Ordering::Relaxed) as u32;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let p = ST.get();
    if p.is_null() {
        return;
    }
    let s = &mut *p;
    let i = *guard as usize;
    if i < s.map.len() {
        let c = s.map.get_unchecked_mut(i);
        *c = c.saturating_add(1);
    }
    s.steps += 1;
    let here = &raw const p as usize;
    let used = s.stack_base.wrapping_sub(here);
    if used > s.max_stack && used < (1 << 40) {
        s.max_stack = used;
    }
    if s.steps > s.budget {
        exceeded(s, "more work than its budget");
    }
    if s.max_stack > s.stack_limit {
        exceeded(s, "more stack than its budget");
    }
}

#[cold]
unsafe fn exceeded(s: &mut State, what: &str) -> ! {
    ST.set(std::ptr::null_mut());
    let msg = format!(
        "{what} (steps {} of {}, stack {} of {} bytes)",
        s.steps, s.budget, s.max_stack, s.stack_limit
    );
    OVERRUN.get().expect("overrun handler")(&msg)
}

pub fn guards() -> usize {
    GUARDS.load(Ordering::Relaxed)
}

/// Installs the state of this thread. It lives until the process ends.
pub fn install() -> &'static mut State {
    let marker = 0u8;
    let st = Box::leak(Box::new(State {
        map: vec![0; guards()],
        steps: 0,
        total: 0,
        budget: u64::MAX,
        stack_base: &raw const marker as usize,
        stack_limit: usize::MAX,
        max_stack: 0,
    }));
    ST.set(st as *mut State);
    st
}

/// Pauses counting (for calls whose work is not that of the case).
pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let p = ST.get();
    assert!(!p.is_null(), "coverage state not installed");
    unsafe { f(&mut *p) }
}

pub fn reset(budget: u64, stack_limit: usize) {
    let marker = 0u8;
    let base = &raw const marker as usize;
    with(|s| {
        s.map.fill(0);
        s.steps = 0;
        s.total = 0;
        s.budget = budget;
        s.stack_limit = stack_limit;
        s.max_stack = 0;
        s.stack_base = base;
    });
}

/// Restarts the step budget within a case, keeping the coverage map.
pub fn rebudget(budget: u64) {
    with(|s| {
        s.total += s.steps;
        s.steps = 0;
        s.budget = budget;
    });
}

pub fn steps() -> u64 {
    with(|s| s.steps)
}
/// Since the last `reset`, up to the last `rebudget`.
pub fn total() -> u64 {
    with(|s| s.total)
}
pub fn max_stack() -> usize {
    with(|s| s.max_stack)
}
