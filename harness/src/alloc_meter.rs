//! Global allocator that records the largest single request and the live
//! bytes per thread, so that checks can bound memory use.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = LARGEST.try_with(|v| v.set(v.get().max(n)));
    let _ = TOTAL.try_with(|v| v.set(v.get().saturating_add(n)));
    let _ = LIVE.try_with(|v| v.set(v.get() + n as isize));
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|v| v.set(v.get() - n as isize));
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Start measuring on this thread.
pub fn start() {
    LARGEST.with(|v| v.set(0));
    TOTAL.with(|v| v.set(0));
}

/// Largest single request since `start()`.
pub fn largest() -> usize {
    LARGEST.with(|v| v.get())
}

/// Sum of all requests since `start()`.
pub fn total() -> usize {
    TOTAL.with(|v| v.get())
}

/// Live bytes allocated by this thread.
pub fn live() -> isize {
    LIVE.with(|v| v.get())
}
