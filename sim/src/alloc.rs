//! Counting allocator: live heap bytes, so that a run can be held to a memory
//! bound, and a hard limit that turns runaway growth into an abort of this
//! process (which the parent localises) instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
const HARD: usize = 2 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIVE.fetch_add(l.size(), Relaxed) + l.size() > HARD {
            LIVE.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if LIVE.fetch_add(n, Relaxed) + n > HARD {
            LIVE.fetch_sub(n, Relaxed);
            return std::ptr::null_mut();
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
