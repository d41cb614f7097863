//! Counting allocator: the simulator's view of the heap. Counters are per thread, so each run measures only itself.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if n > 0 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Bytes currently allocated by this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Runs `f` and returns its result with the growth of the heap at its worst moment.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = live();
    let old = PEAK.with(|p| p.replace(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(old.max(peak)));
    (r, peak - base)
}
/// Number of allocations made by this thread.
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
