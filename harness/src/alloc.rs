//! Counts the memory allocations of each thread: a measure of work that does
//! not depend on the machine.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn count() {
    // (not there any more while the thread ends)
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

/// How many allocations this thread makes while `f` runs.
pub fn allocations<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = COUNT.with(|c| c.get());
    let x = f();
    (x, COUNT.with(|c| c.get()) - before)
}
