//! File operations of this process pass through `HOOK`, so that a demonstration can die, fail or wait at a
//! chosen one. Only the demonstration's own process is affected.
#![allow(dead_code)]
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Do {
    Go,
    /// fail with this errno
    Fail(c_int),
    /// transfer half of the bytes
    Half,
}
pub type Hook = fn(op: &str, path: &str) -> Do;
static HOOK: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
pub fn set(h: Hook) {
    HOOK.store(h as usize, SeqCst);
    ON.store(true, SeqCst);
}
pub fn clear() {
    ON.store(false, SeqCst);
}
pub fn die() -> ! {
    unsafe { libc::_exit(0) }
}
fn call(op: &str, path: &str) -> Do {
    if !ON.load(SeqCst) {
        return Do::Go;
    }
    let h: Hook = unsafe { std::mem::transmute(HOOK.load(SeqCst)) };
    h(op, path)
}
fn name(p: *const c_char) -> String {
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string();
    s.rsplit('/').next().unwrap_or("").to_string()
}
fn err(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
macro_rules! gate {
    ($op:expr, $p:expr) => {
        match call($op, &$p) {
            Do::Fail(e) => return err(e) as _,
            d => d,
        }
    };
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    gate!("rename", name(a));
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    gate!("unlink", name(a));
    libc::syscall(libc::SYS_unlink, a) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    gate!("fdatasync", fdname(fd));
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    gate!("ftruncate", fdname(fd));
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    let d = gate!("pwrite", fdname(fd));
    let n = if d == Do::Half { n / 2 } else { n };
    libc::syscall(libc::SYS_pwrite64, fd, b, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    let d = gate!("pread", fdname(fd));
    let n = if d == Do::Half { n / 2 } else { n };
    libc::syscall(libc::SYS_pread64, fd, b, n, o) as isize
}
pub fn fdname(fd: c_int) -> String {
    std::fs::read_link(format!("/proc/self/fd/{fd}"))
        .map(|p| p.file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default())
        .unwrap_or_default()
}

/// Run `f` in a child process and wait for it.
pub fn in_child(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) {
            libc::WEXITSTATUS(st)
        } else {
            -1
        }
    }
}
