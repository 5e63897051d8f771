//! Counting global allocator (installed only by the checks that need it).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, true);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, true);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), false);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, true);
        System.realloc(p, l, n)
    }
}
fn note(d: i64, is_alloc: bool) {
    let _ = ALLOCS.try_with(|a| {
        if is_alloc {
            a.set(a.get() + 1)
        }
    });
    let _ = BYTES.try_with(|b| b.set(b.get() + d));
    LIVE.fetch_add(d, Ordering::Relaxed);
    if is_alloc {
        TOTAL.fetch_add(1, Ordering::Relaxed);
    }
}
/// allocations made by this thread so far
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}
/// net bytes allocated by this thread so far
pub fn bytes() -> i64 {
    BYTES.with(|a| a.get())
}
