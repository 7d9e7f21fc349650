//! Observes the file-system calls of a thread (and the threads it starts) while it runs the code under test, and
//! lets a monitor pass, fail, shorten or crash any of them: seccomp user notifications served by a second thread of
//! the same process, so that calls made without libc are seen as well.
use libc::{c_int, c_long};
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Pass,
    Errno(i32),
    /// SIGKILL before the call takes effect
    Kill,
    /// write only this share (per mille) and report it
    Short(u32),
    /// write only this share, then SIGKILL
    Torn(u32),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub n: u64,
    pub call: &'static str,
    pub path: PathBuf,
    pub len: usize,
}
const CALLS: &[(c_long, &str)] = &[
    (libc::SYS_open, "open"),
    (libc::SYS_openat, "openat"),
    (libc::SYS_creat, "creat"),
    (libc::SYS_write, "write"),
    (libc::SYS_writev, "writev"),
    (libc::SYS_pwrite64, "pwrite64"),
    (libc::SYS_pwritev, "pwritev"),
    (libc::SYS_fsync, "fsync"),
    (libc::SYS_fdatasync, "fdatasync"),
    (libc::SYS_sync_file_range, "sync_file_range"),
    (libc::SYS_rename, "rename"),
    (libc::SYS_renameat, "renameat"),
    (libc::SYS_renameat2, "renameat2"),
    (libc::SYS_link, "link"),
    (libc::SYS_linkat, "linkat"),
    (libc::SYS_symlink, "symlink"),
    (libc::SYS_unlink, "unlink"),
    (libc::SYS_unlinkat, "unlinkat"),
    (libc::SYS_mkdir, "mkdir"),
    (libc::SYS_mkdirat, "mkdirat"),
    (libc::SYS_rmdir, "rmdir"),
    (libc::SYS_ftruncate, "ftruncate"),
    (libc::SYS_truncate, "truncate"),
    (libc::SYS_fallocate, "fallocate"),
    (libc::SYS_copy_file_range, "copy_file_range"),
    (libc::SYS_sendfile, "sendfile"),
    (libc::SYS_fchmod, "fchmod"),
    (libc::SYS_chmod, "chmod"),
];
#[repr(C)]
#[derive(Clone, Copy)]
struct Data {
    nr: c_int,
    arch: u32,
    ip: u64,
    args: [u64; 6],
}
#[repr(C)]
struct Notif {
    id: u64,
    pid: u32,
    flags: u32,
    data: Data,
}
#[repr(C)]
struct Resp {
    id: u64,
    val: i64,
    error: i32,
    flags: u32,
}
const RECV: u64 = 0xc050_2100;
const SEND: u64 = 0xc018_2101;

fn install() -> Result<c_int, String> {
    let bpf = |code: u16, jt: u8, jf: u8, k: u32| libc::sock_filter { code, jt, jf, k };
    let mut f = vec![bpf(0x20, 0, 0, 0)]; // load syscall number
    for (nr, _) in CALLS {
        f.push(bpf(0x15, 0, 1, *nr as u32));
        f.push(bpf(0x06, 0, 0, 0x7fc0_0000)); // USER_NOTIF
    }
    f.push(bpf(0x06, 0, 0, 0x7fff_0000)); // ALLOW
    let p = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
    unsafe {
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
        let fd = libc::syscall(libc::SYS_seccomp, 1, 8, &p as *const _);
        if fd < 0 {
            return Err(format!("seccomp: {}", std::io::Error::last_os_error()));
        }
        Ok(fd as c_int)
    }
}
fn fd_path(fd: u64) -> PathBuf {
    std::fs::read_link(format!("/proc/self/fd/{}", fd as i32)).unwrap_or_default()
}
fn at_path(dirfd: u64, p: u64) -> PathBuf {
    let s = unsafe { CStr::from_ptr(p as *const libc::c_char) };
    use std::os::unix::ffi::OsStrExt;
    let p = Path::new(std::ffi::OsStr::from_bytes(s.to_bytes()));
    if p.is_absolute() {
        return p.to_path_buf();
    }
    let base = if dirfd as i32 == libc::AT_FDCWD { std::env::current_dir().unwrap_or_default() } else { fd_path(dirfd) };
    base.join(p)
}
/// The file a call modifies, or None if it modifies none.
fn target(name: &str, a: &[u64; 6]) -> Option<(PathBuf, usize)> {
    let cwd = libc::AT_FDCWD as u64;
    let wr = |fl: u64| fl as i32 & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0;
    Some(match name {
        "open" if wr(a[1]) => (at_path(cwd, a[0]), 0),
        "openat" if wr(a[2]) => (at_path(a[0], a[1]), 0),
        "open" | "openat" => return None,
        "creat" | "rename" | "link" | "symlink" | "unlink" | "mkdir" | "rmdir" | "truncate" | "chmod" => (at_path(cwd, a[0]), 0),
        "renameat" | "renameat2" | "linkat" | "unlinkat" | "mkdirat" => (at_path(a[0], a[1]), 0),
        "write" | "pwrite64" => (fd_path(a[0]), a[2] as usize),
        "copy_file_range" => (fd_path(a[2]), a[4] as usize),
        _ => (fd_path(a[0]), 0),
    })
}
/// Runs `f` on a thread of its own; `decide` is asked about every call that modifies something under `dir`.
/// The serving thread stays until the process ends if `f` left threads behind, else it ends with `f`.
pub fn watch<T: Send>(dir: &Path, mut decide: impl FnMut(&Ev) -> Act + Send, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let fd = AtomicI32::new(-1);
    let done = AtomicBool::new(false);
    let dir = dir.to_path_buf();
    std::thread::scope(|s| {
        let sup = std::thread::Builder::new()
            .spawn_scoped(s, || {
                let mut n = 0;
                let l = loop {
                    let l = fd.load(Ordering::SeqCst);
                    if l >= 0 {
                        break l;
                    }
                    if done.load(Ordering::SeqCst) {
                        return;
                    }
                    std::thread::sleep(Duration::from_micros(50));
                };
                loop {
                    let mut p = libc::pollfd { fd: l, events: libc::POLLIN, revents: 0 };
                    let k = unsafe { libc::poll(&mut p, 1, 20) };
                    if k <= 0 || p.revents & libc::POLLIN == 0 {
                        if done.load(Ordering::SeqCst) {
                            unsafe { libc::close(l) };
                            return;
                        }
                        if p.revents & libc::POLLHUP != 0 {
                            std::thread::sleep(Duration::from_millis(1));
                        }
                        continue;
                    }
                    let mut q: Notif = unsafe { std::mem::zeroed() };
                    if unsafe { libc::ioctl(l, RECV as _, &mut q) } != 0 {
                        continue;
                    }
                    let name = CALLS.iter().find(|c| c.0 == q.data.nr as c_long).map(|c| c.1).unwrap_or("?");
                    let mut r = Resp { id: q.id, val: 0, error: 0, flags: 1 };
                    let kill = || unsafe {
                        libc::kill(libc::getpid(), libc::SIGKILL);
                        libc::pause();
                    };
                    if let Some((path, len)) = target(name, &q.data.args) {
                        if path.starts_with(&dir) {
                            n += 1;
                            crate::progress::tick();
                            let ev = Ev { n, call: name, path, len };
                            let act = decide(&ev);
                            let part = |share: u32| -> i64 {
                                let a = q.data.args;
                                let want = (len as u64 * share as u64 / 1000) as usize;
                                unsafe {
                                    match name {
                                        "write" => libc::write(a[0] as i32, a[1] as *const _, want) as i64,
                                        "pwrite64" => libc::pwrite(a[0] as i32, a[1] as *const _, want, a[3] as i64) as i64,
                                        _ => -1,
                                    }
                                }
                            };
                            match act {
                                Act::Pass => {}
                                Act::Errno(e) => {
                                    r.flags = 0;
                                    r.error = -e;
                                }
                                Act::Kill => kill(),
                                Act::Short(p) => {
                                    if len > 1 && matches!(name, "write" | "pwrite64") {
                                        let k = part(p);
                                        if k > 0 {
                                            r.flags = 0;
                                            r.val = k;
                                        }
                                    }
                                }
                                Act::Torn(p) => {
                                    part(p);
                                    kill();
                                }
                            }
                        }
                    }
                    unsafe { libc::ioctl(l, SEND as _, &mut r) };
                }
            })
            .unwrap();
        let w = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || -> Result<T, String> {
                let l = install()?;
                fd.store(l, Ordering::SeqCst);
                Ok(f())
            })
            .unwrap();
        let r = w.join().map_err(|_| "worker panicked".to_string()).and_then(|r| r);
        done.store(true, Ordering::SeqCst);
        let _ = sup.join();
        r
    })
}
/// Lets the kernel open calls of the shape "N-th event does X".
pub fn at(n: u64, act: Act) -> impl FnMut(&Ev) -> Act + Send {
    move |e| if e.n == n { act.clone() } else { Act::Pass }
}
