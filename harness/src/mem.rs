//! Live heap memory, counted at the allocator (switched on for C27 only).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

pub static ON: AtomicBool = AtomicBool::new(false);
/// All threads together.
pub static ALL: AtomicI64 = AtomicI64::new(0);
/// What items left behind, all together.
pub static KEPT: AtomicI64 = AtomicI64::new(0);
/// What equal repetitions added, all items together.
pub static GROWN: AtomicI64 = AtomicI64::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MINE: Cell<i64> = const { Cell::new(0) };
}

#[inline(always)]
fn add(n: i64) {
    if ON.load(Ordering::Relaxed) {
        ALL.fetch_add(n, Ordering::Relaxed);
        CALLS.fetch_add(1, Ordering::Relaxed);
        let _ = MINE.try_with(|m| m.set(m.get() + n));
    }
}
/// What this thread allocated minus what it freed.
pub fn mine() -> i64 {
    MINE.with(|m| m.get())
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
