//! Deterministic per-thread bump allocator for code under test. Addresses depend only on the
//! thread's slot and its own sequence of allocations, so they are stable object names across
//! schedules; nothing is reused within one session.
use crate::{TID, USER};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x1000_0000_0000;
pub const PER_THREAD: usize = 1 << 30;
pub const MAX_THREADS: usize = 256;
pub const WINDOW: usize = PER_THREAD * MAX_THREADS;

static mut BUMP: [usize; MAX_THREADS] = [0; MAX_THREADS];
static mut MAPPED: [bool; MAX_THREADS] = [false; MAX_THREADS];

/// bytes allocated by code under test and not freed yet
pub static mut LIVE: i64 = 0;

pub struct Alloc;

#[inline(always)]
pub fn in_arena(p: usize) -> bool {
    p.wrapping_sub(BASE) < WINDOW
}

#[cold]
unsafe fn map(t: usize) {
    let a = BASE + t * PER_THREAD;
    let r = crate::sys::raw6(
        libc::SYS_mmap,
        a,
        PER_THREAD,
        (libc::PROT_READ | libc::PROT_WRITE) as usize,
        (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED) as usize,
        usize::MAX,
        0,
    );
    if r as usize != a {
        crate::rt::die("arena mmap failed");
    }
    MAPPED[t] = true;
}

#[inline]
unsafe fn bump(layout: Layout) -> *mut u8 {
    let t = TID as usize;
    if !MAPPED[t] {
        map(t);
    }
    let cur = BUMP[t];
    let al = layout.align().max(16);
    let start = (cur + al - 1) & !(al - 1);
    let end = start + layout.size();
    if end > PER_THREAD {
        crate::rt::die("arena exhausted");
    }
    BUMP[t] = end;
    LIVE += layout.size() as i64;
    (BASE + t * PER_THREAD + start) as *mut u8
}

pub unsafe fn reset(nthreads: usize) {
    for t in 0..nthreads.min(MAX_THREADS) {
        if MAPPED[t] && BUMP[t] > (4 << 20) {
            libc::madvise(
                (BASE + t * PER_THREAD) as *mut _,
                (BUMP[t] + 4095) & !4095,
                libc::MADV_DONTNEED,
            );
        }
        BUMP[t] = 0;
    }
    LIVE = 0;
}

unsafe impl GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if USER && (TID as usize) < MAX_THREADS {
            bump(l)
        } else {
            System.alloc(l)
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !in_arena(p as usize) {
            System.dealloc(p, l)
        } else {
            LIVE -= l.size() as i64;
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if USER && (TID as usize) < MAX_THREADS {
            let p = bump(l);
            std::ptr::write_bytes(p, 0, l.size());
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_arena(p as usize) && !(USER && (TID as usize) < MAX_THREADS) {
            return System.realloc(p, l, new);
        }
        if in_arena(p as usize) && new <= l.size() {
            LIVE -= (l.size() - new) as i64;
            return p;
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
