//! Counting global allocator. Counters are plain atomics: loads that are
//! measured run on one thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static CAP_HIT: AtomicBool = AtomicBool::new(false);

fn add(n: usize) -> bool {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    TOTAL.fetch_add(n, Relaxed);
    PEAK.fetch_max(live, Relaxed);
    if live > CAP.load(Relaxed) {
        CAP_HIT.store(true, Relaxed);
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // Counted as a fresh block plus a free: what a copying realloc costs.
        if !add(new) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub total: usize,
    pub peak: usize,
}

/// Runs `f` with a cap on live heap growth (the allocator refuses beyond it,
/// which aborts the process) and reports what it allocated.
pub fn measured<T>(cap: usize, f: impl FnOnce() -> T) -> (T, Stats) {
    let live0 = LIVE.load(Relaxed);
    PEAK.store(live0, Relaxed);
    let total0 = TOTAL.load(Relaxed);
    CAP.store(live0.saturating_add(cap), Relaxed);
    let r = f();
    CAP.store(usize::MAX, Relaxed);
    let s = Stats {
        total: TOTAL.load(Relaxed) - total0,
        peak: PEAK.load(Relaxed).saturating_sub(live0),
    };
    (r, s)
}
