//! Allocator that notes the largest request of a thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
}

pub struct Noting;

/// a request beyond this fails
const REFUSE: usize = 2 << 30;

fn note(n: usize) -> bool {
    if n > 1 << 20 {
        let _ = MAX.try_with(|m| m.set(m.get().max(n)));
    }
    n <= REFUSE
}

// SAFETY: passes everything on to the system allocator, or fails
unsafe impl GlobalAlloc for Noting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if note(l.size()) { unsafe { System.alloc(l) } } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if note(l.size()) { unsafe { System.alloc_zeroed(l) } } else { std::ptr::null_mut() }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if note(n) { unsafe { System.realloc(p, l, n) } } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

pub fn reset() {
    MAX.with(|m| m.set(0));
}
pub fn largest() -> u64 {
    MAX.with(Cell::get) as u64
}
