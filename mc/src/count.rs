//! Counting allocator: while switched on for a thread, sums what the thread allocates and releases.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    /// bytes not released
    pub live: i64,
    pub peak: i64,
    pub calls: u64,
}

/// Starts counting on this thread.
pub fn on() {
    LIVE.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    CALLS.with(|x| x.set(0));
    ON.with(|x| x.set(true));
}
/// Stops counting.
pub fn off() -> Use {
    ON.with(|x| x.set(false));
    Use { live: LIVE.with(|x| x.get()), peak: PEAK.with(|x| x.get()), calls: CALLS.with(|x| x.get()) }
}
/// `f` without counting (harness code inside a counted region)
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|x| x.replace(false));
    let r = f();
    ON.with(|x| x.set(was));
    r
}
#[inline]
fn note(d: i64) {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let l = LIVE.with(|x| {
            x.set(x.get() + d);
            x.get()
        });
        PEAK.with(|x| x.set(x.get().max(l)));
        CALLS.with(|x| x.set(x.get() + 1));
    }
}

pub struct Count;
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
