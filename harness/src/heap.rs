//! A counting allocator: how many bytes the Rust side of this process holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::*};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(Relaxed) && !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if ON.load(Relaxed) && !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if ON.load(Relaxed) && !q.is_null() {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Starts counting; what was allocated before is not part of it.
pub fn start() {
    ON.store(true, SeqCst);
}
pub fn live() -> i64 {
    LIVE.load(SeqCst)
}
/// Ends the process without running destructors of the C++ side, after asking the leak detector where there is one.
pub fn finish() -> ! {
    #[cfg(all(not(miri), vh_asan))]
    {
        extern "C" {
            fn __lsan_do_leak_check();
        }
        unsafe { __lsan_do_leak_check() }
    }
    #[cfg(not(miri))]
    unsafe {
        libc::_exit(0)
    }
    #[cfg(miri)]
    std::process::exit(0)
}
