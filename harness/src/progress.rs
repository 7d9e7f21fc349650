//! A counter and a note in a memory-mapped file, read by the runner's watchdog (and after a crash).
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicU8, Ordering};

static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
pub fn init() {
    let Ok(p) = std::env::var("VH_PROGRESS") else { return };
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p) else { return };
    if f.set_len(4096).is_err() {
        return;
    }
    use std::os::fd::AsRawFd;
    let m = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if m != libc::MAP_FAILED {
        MAP.store(m as *mut u8, Ordering::SeqCst);
    }
}
pub fn tick() {
    let m = MAP.load(Ordering::Relaxed);
    if !m.is_null() {
        unsafe { (*(m as *const AtomicU64)).fetch_add(1, Ordering::Relaxed) };
    }
}
/// What the process is about to do, for reports on hangs and crashes.
pub fn doing(s: &str) {
    let m = MAP.load(Ordering::Relaxed);
    if !m.is_null() {
        let b = s.as_bytes();
        let n = b.len().min(1900);
        unsafe {
            for k in 0..n {
                (*(m.add(8 + k) as *const AtomicU8)).store(b[k], Ordering::Relaxed);
            }
            (*(m.add(8 + n) as *const AtomicU8)).store(0, Ordering::Relaxed);
        }
    }
    tick();
}
