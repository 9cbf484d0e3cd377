//! Interposed libc entry points. The definitions here win over libc's at static link time; for
//! threads that are not executing code under test they fall through to the raw system call.
use crate::rt::*;
use crate::{mix, Hook, TID, USER};
use libc::*;
use std::ffi::CStr;

#[inline(always)]
pub fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> isize {
    *__errno_location() = e;
    -1
}

unsafe fn real<T: Copy>(name: &[u8]) -> T {
    let p = dlsym(RTLD_NEXT, name.as_ptr() as *const _);
    if p.is_null() {
        die("dlsym failed");
    }
    std::mem::transmute_copy(&p)
}

pub unsafe fn unmap_window(start: usize, len: usize) {
    let len = (len + 4095) & !4095;
    raw6(
        SYS_mmap,
        start,
        len,
        PROT_NONE as usize,
        (MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED) as usize,
        usize::MAX,
        0,
    );
}

/// file name relative to the session dir, if tracked
unsafe fn tracked(path: *const c_char) -> Option<String> {
    let p = CStr::from_ptr(path).to_str().ok()?;
    let d = &rt().cfg.dir;
    if d.is_empty() || !p.starts_with(d.as_str()) {
        return None;
    }
    let rest = p[d.len()..].trim_start_matches('/');
    if rest.is_empty() || rest == ".lock" || rest.contains('/') {
        return None;
    }
    Some(rest.to_string())
}

#[inline]
fn fid_of(fd: c_int) -> Option<u32> {
    if fd < 0 || fd as usize >= rt().fds.len() {
        return None;
    }
    let f = rt().fds[fd as usize];
    if f == u32::MAX {
        None
    } else {
        Some(f)
    }
}

const DIR_OBJ: u64 = 0xd1d1_0000_d1d1;

fn data_objs(fid: u32, off: u64, len: usize, acc: Acc, pt: bool) {
    let r = rt();
    if !r.cfg.track {
        r.step();
        return;
    }
    let sid = r.files[fid as usize].sid;
    let a = off / 64;
    let b = (off + len.max(1) as u64 - 1) / 64;
    for c in a..=b {
        let o = mix(sid ^ 0xda7a, c);
        if pt {
            r.point(o, acc)
        } else {
            r.event(o, acc)
        }
    }
}

enum Flt {
    None,
    Err(i32),
    Short,
}
/// fault injection: called once per tracked file-system call
fn fault(what: &'static str, fid: Option<u32>, mutating: bool) -> Flt {
    let r = rt();
    r.nfs += 1;
    let me = r.cur;
    r.thr[me].nfs += 1;
    if r.want_fs_names {
        let n = fid.map(|f| r.files[f as usize].name.clone()).unwrap_or_default();
        r.fs_names.push(format!("{what}:{n}"));
    }
    let Some(f) = r.cfg.fault else { return Flt::None };
    let n = match f.thr {
        None => r.nfs,
        Some(t) if t == r.cur && r.phase == Phase::Par => r.thr[t].nfs,
        _ => return Flt::None,
    };
    let hit = n == f.at || (f.persist && mutating && n > f.at);
    if !hit {
        return Flt::None;
    }
    if r.fault_hit.is_none() {
        let n = fid.map(|f| r.files[f as usize].name.clone()).unwrap_or_default();
        r.fault_hit = Some(format!("{what}({n})"));
    }
    match f.kind {
        FaultKind::Err(e) => Flt::Err(e),
        FaultKind::Short => Flt::Short,
        FaultKind::Intr => Flt::Err(EINTR),
    }
}

// ---------------------------------------------------------------- files
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let rawopen = || ret(raw6(SYS_openat, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    if !under_test() {
        return rawopen();
    }
    let _h = Hook::enter();
    let Some(name) = tracked(path) else { return rawopen() };
    let r = rt();
    let mut st: stat = std::mem::zeroed();
    let exists = raw6(SYS_stat, path as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) == 0;
    let creat = flags & O_CREAT != 0;
    let trunc = flags & O_TRUNC != 0;
    let acc = if (creat && !exists) || trunc { Acc::W } else { Acc::R };
    r.point(DIR_OBJ, acc);
    // re-check after the scheduling point
    let exists = raw6(SYS_stat, path as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) == 0;
    r.event(DIR_OBJ, acc);
    if let Flt::Err(e) = fault("open", None, creat || trunc) {
        return fail(e) as c_int;
    }
    let fd = rawopen();
    if fd < 0 {
        return fd;
    }
    if fd as usize >= r.fds.len() {
        die("fd table overflow");
    }
    if raw6(SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) != 0 {
        return fd;
    }
    if st.st_mode & S_IFMT == S_IFDIR {
        r.dirfds.push(fd);
    }
    if st.st_mode & S_IFMT != S_IFREG {
        return fd;
    }
    let ino = (st.st_dev as u64, st.st_ino as u64);
    let fid = match r.inos.get(&ino) {
        Some(f) if exists => *f,
        _ => {
            let f = r.register_file(ino, &name);
            r.log_ev(Ev::Create { fid: f, name: name.clone() });
            f
        }
    };
    if exists && trunc {
        r.log_ev(Ev::Trunc { fid, len: 0 });
    }
    r.fds[fd as usize] = fid;
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if managed() && fd >= 0 && (fd as usize) < rt().fds.len() {
        rt().fds[fd as usize] = u32::MAX;
        rt().dirfds.retain(|x| *x != fd);
        if let Some(i) = rt().lockfds.iter().position(|x| *x == fd) {
            // closing it releases the lock
            let _h = Hook::enter();
            rt().lockfds.swap_remove(i);
            rt().point(LOCK_OBJ, Acc::W);
            rt().event(LOCK_OBJ, Acc::W);
        }
    }
    ret(raw6(SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
const LOCK_OBJ: u64 = 0x10cf_11e5;
unsafe fn lock_op(fd: c_int) {
    rt().point(LOCK_OBJ, Acc::W);
    rt().event(LOCK_OBJ, Acc::W);
    if !rt().lockfds.contains(&fd) {
        rt().lockfds.push(fd);
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !under_test() {
        return ret(raw6(SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int;
    }
    let _h = Hook::enter();
    lock_op(fd);
    loop {
        let k = raw6(SYS_flock, fd as usize, (op | LOCK_NB) as usize, 0, 0, 0, 0);
        if k == -(EWOULDBLOCK as isize) && op & LOCK_NB == 0 {
            rt().step();
            rt().decide(true);
            continue;
        }
        return ret(k) as c_int;
    }
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if matches!(cmd, F_SETLK | F_SETLKW | F_OFD_SETLK | F_OFD_SETLKW) && under_test() {
        let _h = Hook::enter();
        lock_op(fd);
    }
    let n = ret(raw6(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    if n >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && managed() {
        if let Some(f) = fid_of(fd) {
            if (n as usize) < rt().fds.len() {
                rt().fds[n as usize] = f;
            }
        }
    }
    n
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}

unsafe fn do_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> isize {
    let (ut, fid) = (under_test(), if under_test() { fid_of(fd) } else { None });
    if !ut || fid.is_none() {
        return ret(raw6(SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0));
    }
    let _h = Hook::enter();
    let fid = fid.unwrap();
    data_objs(fid, off as u64, n, Acc::W, true);
    data_objs(fid, off as u64, n, Acc::W, false);
    let mut n = n;
    match fault("pwrite", Some(fid), true) {
        Flt::Err(e) => return fail(e),
        Flt::Short if n > 1 => n /= 2,
        _ => {}
    }
    let k = ret(raw6(SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0));
    if k > 0 {
        rt().dirty(fid);
    }
    if k > 0 && rt().cfg.log {
        let data = std::slice::from_raw_parts(buf as *const u8, k as usize).to_vec();
        rt().log_ev(Ev::Write { fid, off: off as u64, data });
    }
    k
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> isize {
    do_pwrite(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> isize {
    do_pwrite(fd, buf, n, off)
}
unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> isize {
    let (ut, fid) = (under_test(), if under_test() { fid_of(fd) } else { None });
    if !ut || fid.is_none() {
        return ret(raw6(SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0));
    }
    let _h = Hook::enter();
    let fid = fid.unwrap();
    data_objs(fid, off as u64, n, Acc::R, true);
    data_objs(fid, off as u64, n, Acc::R, false);
    let mut n = n;
    match fault("pread", Some(fid), false) {
        Flt::Err(e) => return fail(e),
        Flt::Short if n > 1 => n /= 2,
        _ => {}
    }
    ret(raw6(SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> isize {
    do_pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> isize {
    do_pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> isize {
    if under_test() {
        if let Some(fid) = fid_of(fd) {
            let _h = Hook::enter();
            let pos = raw6(SYS_lseek, fd as usize, 0, SEEK_CUR as usize, 0, 0, 0) as u64;
            data_objs(fid, pos, n.min(4096), Acc::R, true);
            data_objs(fid, pos, n.min(4096), Acc::R, false);
            match fault("read", Some(fid), false) {
                Flt::Err(e) => return fail(e),
                Flt::Short if n > 1 => return ret(raw6(SYS_read, fd as usize, buf as usize, n / 2, 0, 0, 0)),
                _ => {}
            }
        }
    }
    ret(raw6(SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> isize {
    if under_test() {
        if let Some(fid) = fid_of(fd) {
            let _h = Hook::enter();
            let pos = raw6(SYS_lseek, fd as usize, 0, SEEK_CUR as usize, 0, 0, 0) as u64;
            data_objs(fid, pos, n, Acc::W, true);
            data_objs(fid, pos, n, Acc::W, false);
            let mut n = n;
            match fault("write", Some(fid), true) {
                Flt::Err(e) => return fail(e),
                Flt::Short if n > 1 => n /= 2,
                _ => {}
            }
            let k = ret(raw6(SYS_write, fd as usize, buf as usize, n, 0, 0, 0));
            if k > 0 {
                rt().dirty(fid);
            }
            if k > 0 && rt().cfg.log {
                let data = std::slice::from_raw_parts(buf as *const u8, k as usize).to_vec();
                rt().log_ev(Ev::Write { fid, off: pos, data });
            }
            return k;
        }
    }
    ret(raw6(SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}

unsafe fn do_ftruncate(fd: c_int, len: i64) -> c_int {
    if under_test() {
        if let Some(fid) = fid_of(fd) {
            let _h = Hook::enter();
            let o = mix(rt().files[fid as usize].sid, 0x512e);
            rt().point(o, Acc::W);
            rt().event(o, Acc::W);
            if let Flt::Err(e) = fault("ftruncate", Some(fid), true) {
                return fail(e) as c_int;
            }
            let k = ret(raw6(SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int;
            if k == 0 {
                rt().log_ev(Ev::Trunc { fid, len: len as u64 });
            }
            return k;
        }
    }
    ret(raw6(SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    do_ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    do_ftruncate(fd, len)
}
unsafe fn do_fallocate(fd: c_int, off: i64, len: i64) -> c_int {
    if under_test() {
        if let Some(fid) = fid_of(fd) {
            let _h = Hook::enter();
            // kept sparse: only the size effect is modelled
            if let Flt::Err(e) = fault("fallocate", Some(fid), true) {
                return e;
            }
            let mut st: stat = std::mem::zeroed();
            raw6(SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0);
            if st.st_size < off + len {
                let k = raw6(SYS_ftruncate, fd as usize, (off + len) as usize, 0, 0, 0, 0);
                if k < 0 {
                    return -k as c_int;
                }
                rt().log_ev(Ev::Trunc { fid, len: (off + len) as u64 });
            }
            return 0;
        }
    }
    let k = raw6(SYS_fallocate, fd as usize, 0, off as usize, len as usize, 0, 0);
    -k as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: i64, len: i64) -> c_int {
    do_fallocate(fd, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: i64, len: i64) -> c_int {
    do_fallocate(fd, off, len)
}

unsafe fn do_sync(fd: c_int, nr: c_long) -> c_int {
    if under_test() {
        if let Some(fid) = fid_of(fd) {
            let _h = Hook::enter();
            let o = mix(rt().files[fid as usize].sid, 0x57ac);
            rt().point(o, Acc::W);
            rt().event(o, Acc::W);
            if let Flt::Err(e) = fault("sync", Some(fid), true) {
                return fail(e) as c_int;
            }
            rt().nsync += 1;
            if let Some((n, persist)) = rt().cfg.sync_fault {
                if rt().nsync == n || (persist && rt().nsync > n) {
                    rt().fault_hit.get_or_insert_with(|| "sync".into());
                    return fail(EIO) as c_int;
                }
            }
            rt().sync_count += 1;
            rt().log_ev(Ev::Sync { fid });
            return 0;
        }
    }
    ret(raw6(nr, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn msync(addr: *mut c_void, len: size_t, flags: c_int) -> c_int {
    let a = addr as usize;
    if under_test() && a.wrapping_sub(WIN) < WINLEN {
        let _h = Hook::enter();
        if let Some(r) = rt().region_of(a) {
            if let Flt::Err(e) = fault("sync", Some(r.fid), true) {
                return fail(e) as c_int;
            }
            // treated as syncing the whole file only if it covers the whole mapping
            if a == r.start && len + 4095 >= r.len && flags & MS_SYNC != 0 {
                rt().log_ev(Ev::Sync { fid: r.fid });
            }
            return 0;
        }
    }
    ret(raw6(SYS_msync, a, len, flags as usize, 0, 0, 0)) as c_int
}

unsafe fn do_rename(a: *const c_char, b: *const c_char) -> c_int {
    if under_test() {
        let _h = Hook::enter();
        if let (Some(from), Some(to)) = (tracked(a), tracked(b)) {
            rt().point(DIR_OBJ, Acc::W);
            rt().event(DIR_OBJ, Acc::W);
            if let Flt::Err(e) = fault("rename", None, true) {
                return fail(e) as c_int;
            }
            let k = ret(raw6(SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int;
            if k == 0 {
                rt().log_ev(Ev::Rename { from, to });
            }
            return k;
        }
    }
    ret(raw6(SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    do_rename(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if under_test() {
        let _h = Hook::enter();
        if let Some(name) = tracked(a) {
            rt().point(DIR_OBJ, Acc::W);
            rt().event(DIR_OBJ, Acc::W);
            if let Flt::Err(e) = fault("unlink", None, true) {
                return fail(e) as c_int;
            }
            let k = ret(raw6(SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as c_int;
            if k == 0 {
                rt().log_ev(Ev::Unlink { name });
            }
            return k;
        }
    }
    ret(raw6(SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if under_test() {
        let _h = Hook::enter();
        rt().point(DIR_OBJ, Acc::R);
        rt().event(DIR_OBJ, Acc::R);
        if CStr::from_ptr(p).to_str().ok() == Some(rt().cfg.dir.as_str()) {
            if let Flt::Err(e) = fault("opendir", None, false) {
                fail(e);
                return std::ptr::null_mut();
            }
        }
        let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = real(b"opendir\0");
        return f(p);
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = real(b"opendir\0");
    f(p)
}

// ---------------------------------------------------------------- memory maps
unsafe fn do_mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    if under_test() && fd >= 0 {
        if let Some(fid) = fid_of(fd) {
            let _h = Hook::enter();
            let r = rt();
            r.step();
            if let Flt::Err(e) = fault("mmap", Some(fid), false) {
                fail(e);
                return MAP_FAILED;
            }
            let slots = (len + SLOT - 1) / SLOT;
            if r.next_slot + slots > NSLOTS {
                die("mmap window exhausted");
            }
            let start = WIN + r.next_slot * SLOT;
            let p = raw6(SYS_mmap, start, len, prot as usize, (flags | MAP_FIXED) as usize, fd as usize, off as usize);
            if p < 0 {
                return ret(p) as *mut c_void;
            }
            let ri = r.regions.len() as u16;
            for s in 0..slots {
                r.slot_region[r.next_slot + s] = ri;
            }
            r.next_slot += slots;
            r.regions.push(Region { start, len, fid, foff: off as u64, live: true });
            return start as *mut c_void;
        }
    }
    ret(raw6(SYS_mmap, addr as usize, len, prot as usize, flags as usize, fd as usize, off as usize)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    do_mmap(a, l, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    do_mmap(a, l, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, len: size_t) -> c_int {
    let ad = a as usize;
    if managed() && ad.wrapping_sub(WIN) < WINLEN {
        let _h = Hook::enter();
        let r = rt();
        r.flush_pend();
        for reg in r.regions.iter_mut() {
            if reg.live && reg.start == ad {
                reg.live = false;
            }
        }
        unmap_window(ad, len);
        return 0;
    }
    ret(raw6(SYS_munmap, ad, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mlock(a: *const c_void, len: size_t) -> c_int {
    if under_test() {
        return 0;
    }
    ret(raw6(SYS_mlock, a as usize, len, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- threads, time, futex
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut pthread_t,
        *const pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(real(b"pthread_create\0"));
    }
    if !managed() {
        return REAL.unwrap()(t, attr, f, arg);
    }
    let user = USER;
    let _h = Hook::enter();
    let r = rt();
    let tid = r.add_thread();
    let b = Box::into_raw(Box::new(Start { f, arg, tid, user }));
    let k = REAL.unwrap()(t, attr, trampoline, b as *mut c_void);
    if k != 0 {
        die("pthread_create failed");
    }
    r.thr[tid].real = *t;
    r.thr[tid].has_real = true;
    k
}
pub unsafe fn real_join(t: pthread_t) {
    type F = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(real(b"pthread_join\0"));
    }
    REAL.unwrap()(t, std::ptr::null_mut());
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, rv: *mut *mut c_void) -> c_int {
    if managed() {
        let _h = Hook::enter();
        let r = rt();
        let id = r.thr.iter().position(|x| x.has_real && !x.reaped && x.real == t);
        if let Some(id) = id {
            join_thread(id);
            real_join(t);
            r.thr[id].reaped = true;
            return 0;
        }
    }
    type F = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(real(b"pthread_join\0"));
    }
    REAL.unwrap()(t, rv)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    if managed() {
        // stays joinable: the session end joins it for real
        return 0;
    }
    let f: unsafe extern "C" fn(pthread_t) -> c_int = real(b"pthread_detach\0");
    f(t)
}

unsafe fn never(_: *const ()) -> bool {
    false
}
unsafe fn virtual_sleep(ns: u64) {
    let _h = Hook::enter();
    let r = rt();
    r.clock += ns;
    r.block(Blk { pred: never, arg: std::ptr::null(), timed: true, what: "sleep" });
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if under_test() {
        virtual_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw6(SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if under_test() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        virtual_sleep(if fl & TIMER_ABSTIME != 0 { ns.saturating_sub(rt().clock) } else { ns });
        return 0;
    }
    -raw6(SYS_clock_nanosleep, c as usize, fl as usize, req as usize, rem as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, tp: *mut timespec) -> c_int {
    if under_test() {
        let r = rt();
        r.clock += 1000;
        (*tp).tv_sec = (r.clock / 1_000_000_000) as i64;
        (*tp).tv_nsec = (r.clock % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(SYS_clock_gettime, c as usize, tp as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if under_test() {
        yield_now();
        return 0;
    }
    ret(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn pred_futex(arg: *const ()) -> bool {
    rt().thr[arg as usize].futex_woken
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_futex && under_test() {
        let _h = Hook::enter();
        let r = rt();
        let op = b as i32 & 127;
        let me = TID as usize;
        let obj = r.mem_obj(a) ^ 0xf07e;
        if op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET {
            if std::ptr::read_volatile(a as *const u32) != c as u32 {
                return fail(EAGAIN) as c_long;
            }
            r.thr[me].futex_addr = a;
            r.thr[me].futex_woken = false;
            let timed = d != 0;
            let ok = r.block(Blk { pred: pred_futex, arg: me as *const (), timed, what: "futex" });
            r.thr[me].futex_addr = 0;
            r.event(obj, Acc::W);
            if !ok {
                return fail(ETIMEDOUT) as c_long;
            }
            return 0;
        }
        if op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET {
            r.step();
            r.event(obj, Acc::W);
            let mut k = 0;
            for t in 0..r.thr.len() {
                if k >= c {
                    break;
                }
                if r.thr[t].futex_addr == a && !r.thr[t].futex_woken {
                    r.thr[t].futex_woken = true;
                    k += 1;
                }
            }
            return k as c_long;
        }
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}
