//! Basic-block callbacks compiled into the library under test (and only into it): scheduling points inside
//! computations, a deterministic step budget, and the measure of which code the runs reached.
use crate::world::{w, EDGE_POINTS, IN_LIB};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering};

pub const MAX: usize = 1 << 16;
static NEXT: AtomicU32 = AtomicU32::new(1);
/// shared with the worker process, one byte per edge
pub static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
pub static STEPS: AtomicU64 = AtomicU64::new(0);
/// steps made when the latest call into the library began
pub static CALL: AtomicU64 = AtomicU64::new(0);
pub static BUDGET: AtomicU64 = AtomicU64::new(400_000_000);

pub fn edges() -> usize {
    (NEXT.load(Ordering::Relaxed) as usize - 1).min(MAX - 1)
}
pub fn setup() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            MAX,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        MAP.store(p as *mut u8, Ordering::Relaxed);
    }
}
pub fn covered() -> Vec<usize> {
    let p = MAP.load(Ordering::Relaxed);
    (1..=edges()).filter(|&i| unsafe { *p.add(i) } != 0).collect()
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = NEXT.fetch_add(1, Ordering::Relaxed).min(MAX as u32 - 1);
        p = p.add(1);
    }
}

thread_local! {
    static NEST: Cell<bool> = const { Cell::new(false) };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN_LIB.try_with(|c| c.get()).unwrap_or(false) {
        return;
    }
    let m = MAP.load(Ordering::Relaxed);
    if !m.is_null() {
        *m.add(*g as usize) = 1;
    }
    // only the task that holds the baton runs: relaxed load and store are enough
    let s = STEPS.load(Ordering::Relaxed) + 1;
    STEPS.store(s, Ordering::Relaxed);
    if s > BUDGET.load(Ordering::Relaxed) + CALL.load(Ordering::Relaxed) {
        IN_LIB.with(|c| c.set(false));
        w().die(77, "hang: the step budget of one call is exhausted");
    }
    if EDGE_POINTS.load(Ordering::Relaxed) && !NEST.with(|n| n.replace(true)) {
        IN_LIB.with(|c| c.set(false));
        w().point(*g as u64);
        IN_LIB.with(|c| c.set(true));
        NEST.with(|n| n.set(false));
    }
}
