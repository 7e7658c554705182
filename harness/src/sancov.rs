//! Runtime side of the SanitizerCoverage instrumentation that `rustc-wrapper.sh` puts into the `ncas` crate:
//! every control-flow edge executed inside ncas calls back here.  Gives (1) evidence of what was reached, (2) new-edge
//! feedback for the workload generator, (3) a logical clock ("edges executed") used instead of wall time to decide
//! runaway computation.
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

const MAX: usize = 1 << 17;
static COUNT: AtomicUsize = AtomicUsize::new(0);
static HIT: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];
static COVERED: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            let n = COUNT.fetch_add(1, Relaxed) + 1;
            *p = n as u32;
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let i = unsafe { *guard } as usize;
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if i < MAX && HIT[i].load(Relaxed) == 0 {
        HIT[i].store(1, Relaxed);
        COVERED.fetch_add(1, Relaxed);
    }
    if s > LIMIT.load(Relaxed) {
        crate::worker::die(crate::worker::EXIT_STEPS, "edge budget exceeded");
    }
}

pub fn edges_total() -> usize {
    COUNT.load(Relaxed)
}
pub fn edges_covered() -> usize {
    COVERED.load(Relaxed)
}
pub fn covered_ids() -> Vec<u32> {
    (0..MAX).filter(|&i| HIT[i].load(Relaxed) != 0).map(|i| i as u32).collect()
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
/// abort the process (with a marker) when more than `n` further edges are executed
pub fn set_budget(n: u64) {
    LIMIT.store(STEPS.load(Relaxed).saturating_add(n), Relaxed);
}
pub fn clear_budget() {
    LIMIT.store(u64::MAX, Relaxed);
}
