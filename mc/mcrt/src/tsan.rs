//! Runtime side of the compiler's memory instrumentation (LLVM ThreadSanitizer ABI). Only accesses
//! inside the shard-header window are interesting; everything else returns immediately. Atomics are
//! executed here and become scheduling points.
use crate::rt::*;
use crate::{Hook, TID};
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

#[cold]
#[inline(never)]
unsafe fn slow(a: usize, n: usize, w: bool) {
    if !managed() {
        return;
    }
    let _h = Hook::enter();
    let r = rt();
    if w && r.cfg.log {
        r.flush_pend();
        r.pend.push((a, n));
    }
    if w {
        r.dirty_mem(a);
    }
    if r.cfg.race {
        race(r, a, n, w, false);
    }
}

unsafe fn race(r: &mut Rt, a: usize, n: usize, w: bool, atomic: bool) {
    let me = TID as usize;
    if me >= NV || r.phase != Phase::Par {
        return;
    }
    let slot = (a - WIN) / SLOT;
    while r.shadow.len() <= slot {
        r.shadow.push(vec![]);
    }
    if r.shadow[slot].is_empty() {
        r.shadow[slot] = vec![Cell::default(); SLOT / 4];
    }
    let base = WIN + slot * SLOT;
    let first = (a - base) / 4;
    let last = ((a + n - 1 - base) / 4).min(SLOT / 4 - 1);
    let vc = r.thr[me].vc;
    let mut bad: Option<(usize, usize, bool)> = None;
    for i in first..=last {
        let c = &mut r.shadow[slot][i];
        if c.sess != r.sess {
            *c = Cell::default();
            c.sess = r.sess;
        }
        // two atomic accesses never race
        if c.wc != 0 && c.wt & 0x7f != me as u8 && c.wc > vc[(c.wt & 0x7f) as usize] && !(atomic && c.wt & 0x80 != 0) {
            bad = Some((i, (c.wt & 0x7f) as usize, true));
        }
        if w {
            if !atomic {
                for t in 0..NV {
                    if t != me && c.rc[t] > vc[t] {
                        bad = Some((i, t, false));
                    }
                }
            }
            c.wt = me as u8 | if atomic { 0x80 } else { 0 };
            c.wc = vc[me];
        } else if !atomic {
            c.rc[me] = vc[me];
        }
    }
    if let Some((i, t, wr)) = bad {
        if r.races.len() < 4 {
            let ad = base + i * 4;
            let d = r
                .region_of(ad)
                .map(|g| format!("{}+{}", r.files[g.fid as usize].name, g.foff as usize + ad - g.start))
                .unwrap_or_default();
            let s = format!(
                "{} by T{} races with {} by T{} on {}",
                if w { "write" } else { "read" },
                me,
                if wr { "write" } else { "read" },
                t,
                d
            );
            if !r.races.contains(&s) {
                r.races.push(s);
            }
        }
    }
}

#[inline(always)]
unsafe fn mem(a: usize, n: usize, w: bool) {
    if a.wrapping_sub(WIN) < WINLEN {
        slow(a, n, w)
    }
}

macro_rules! rw {
    ($($r:ident $w:ident $n:expr;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $r(a: usize) { mem(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $w(a: usize) { mem(a, $n, true) }
    )*};
}
rw! {
    __tsan_read1 __tsan_write1 1;
    __tsan_read2 __tsan_write2 2;
    __tsan_read4 __tsan_write4 4;
    __tsan_read8 __tsan_write8 8;
    __tsan_read16 __tsan_write16 16;
    __tsan_unaligned_read2 __tsan_unaligned_write2 2;
    __tsan_unaligned_read4 __tsan_unaligned_write4 4;
    __tsan_unaligned_read8 __tsan_unaligned_write8 8;
    __tsan_unaligned_read16 __tsan_unaligned_write16 16;
    __tsan_volatile_read1 __tsan_volatile_write1 1;
    __tsan_volatile_read2 __tsan_volatile_write2 2;
    __tsan_volatile_read4 __tsan_volatile_write4 4;
    __tsan_volatile_read8 __tsan_volatile_write8 8;
    __tsan_volatile_read16 __tsan_volatile_write16 16;
    __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_write2 2;
    __tsan_unaligned_volatile_read4 __tsan_unaligned_volatile_write4 4;
    __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_write8 8;
    __tsan_unaligned_volatile_read16 __tsan_unaligned_volatile_write16 16;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, n: usize) {
    mem(a, n, false)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, n: usize) {
    mem(a, n, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_p: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(_a: usize, _b: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(_a: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}

/// Copies into the window are performed (and logged) piecewise so that a crash can fall inside.
unsafe fn copy_in(d: *mut u8, s: *const u8, n: usize, mv: bool) {
    let _h = Hook::enter();
    let r = rt();
    if !managed() {
        std::ptr::copy(s, d, n);
        return;
    }
    if r.cfg.race {
        race(r, d as usize, n, true, false);
    }
    r.dirty_mem(d as usize);
    if !r.cfg.log || n <= 8 {
        r.flush_pend();
        std::ptr::copy(s, d, n);
        if r.cfg.log {
            r.log_mem(d as usize, n);
        }
        return;
    }
    r.flush_pend();
    if mv {
        std::ptr::copy(s, d, n);
        r.log_mem(d as usize, n);
        return;
    }
    let step = (n / 8).max(8);
    let mut o = 0;
    while o < n {
        let k = step.min(n - o);
        std::ptr::copy(s.add(o), d.add(o), k);
        r.log_mem(d as usize + o, k);
        o += k;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n != 0 {
        mem(s as usize, n, false);
        if (d as usize).wrapping_sub(WIN) < WINLEN {
            copy_in(d, s, n, false);
            return d;
        }
    }
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n != 0 {
        mem(s as usize, n, false);
        if (d as usize).wrapping_sub(WIN) < WINLEN {
            copy_in(d, s, n, true);
            return d;
        }
    }
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if n != 0 && (d as usize).wrapping_sub(WIN) < WINLEN && managed() {
        let _h = Hook::enter();
        let r = rt();
        if r.cfg.race {
            race(r, d as usize, n, true, false);
        }
        r.dirty_mem(d as usize);
        r.flush_pend();
        std::ptr::write_bytes(d, c as u8, n);
        if r.cfg.log {
            r.log_mem(d as usize, n);
        }
        return d;
    }
    std::ptr::write_bytes(d, c as u8, n);
    d
}

// ---------------------------------------------------------------- atomics
const RELAXED: i32 = 0;
fn is_acq(mo: i32) -> bool {
    mo == 1 || mo == 2 || mo == 4 || mo == 5
}
fn is_rel(mo: i32) -> bool {
    mo == 3 || mo == 4 || mo == 5
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}
/// Atomics of the harness and the standard library (thread handles, ...) are not part of the program.
#[inline]
unsafe fn foreign(a: usize) -> bool {
    !crate::arena::in_arena(a)
        && a.wrapping_sub(WIN) >= WINLEN
        && !(a >= &__executable_start as *const u8 as usize && a < &_end as *const u8 as usize)
}

#[inline]
unsafe fn pre(a: usize, acc: Acc) -> u64 {
    let r = rt();
    let obj = r.mem_obj(a);
    // commuting adds are only assumed for heap counters
    let acc2 = if acc == Acc::Add && a.wrapping_sub(WIN) < WINLEN { Acc::W } else { acc };
    r.point(obj, acc2);
    r.event(obj, acc2);
    r.spin += 1;
    if r.spin > 20_000 {
        r.spin = 0;
        r.decide(true);
    }
    obj
}
unsafe fn post(obj: u64, a: usize, n: usize, mo: i32, rd: bool, wr: bool) {
    let r = rt();
    if r.cfg.race && (TID as usize) < NV {
        let me = TID as usize;
        if a.wrapping_sub(WIN) < WINLEN {
            race(r, a, n, wr, true);
        }
        if rd {
            let v = r.objs.entry(obj).or_default().vc;
            if is_acq(mo) {
                vjoin(&mut r.thr[me].vc, &v);
            } else {
                vjoin(&mut r.thr[me].facq, &v);
            }
        }
        if wr {
            let v = if is_rel(mo) { r.thr[me].vc } else { r.thr[me].frel };
            let o = r.objs.entry(obj).or_default();
            if rd {
                vjoin(&mut o.vc, &v);
            } else {
                o.vc = v;
            }
            if is_rel(mo) {
                r.thr[me].vc[me] += 1;
            }
        }
    }
    let _ = RELAXED;
    if wr && a.wrapping_sub(WIN) < WINLEN {
        r.dirty_mem(a);
    }
    if wr && r.cfg.log && a.wrapping_sub(WIN) < WINLEN {
        r.flush_pend();
        r.log_mem(a, n);
    }
}

macro_rules! atomics {
    ($t:ty, $at:ty, $n:expr, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident, $casw:ident, $casv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, mo: i32) -> $t {
            if !managed() || foreign(a as usize) {
                return (*(a as *const $at)).load(SeqCst);
            }
            let _h = Hook::enter();
            let o = pre(a as usize, Acc::R);
            let v = (*(a as *const $at)).load(SeqCst);
            post(o, a as usize, $n, mo, true, false);
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, mo: i32) {
            if !managed() || foreign(a as usize) {
                return (*(a as *const $at)).store(v, SeqCst);
            }
            let _h = Hook::enter();
            let o = pre(a as usize, Acc::W);
            rt().flush_pend();
            (*(a as *const $at)).store(v, SeqCst);
            post(o, a as usize, $n, mo, false, true);
        }
        atomics!(@rmw $t, $at, $n, $xchg, swap, Acc::W);
        atomics!(@rmw $t, $at, $n, $add, fetch_add, Acc::Add);
        atomics!(@rmw $t, $at, $n, $sub, fetch_sub, Acc::Add);
        atomics!(@rmw $t, $at, $n, $and, fetch_and, Acc::W);
        atomics!(@rmw $t, $at, $n, $or, fetch_or, Acc::W);
        atomics!(@rmw $t, $at, $n, $xor, fetch_xor, Acc::W);
        atomics!(@rmw $t, $at, $n, $nand, fetch_nand, Acc::W);
        #[no_mangle]
        pub unsafe extern "C" fn $casv(a: *mut $t, c: $t, v: $t, mo: i32, fmo: i32) -> $t {
            let at = &*(a as *const $at);
            if !managed() || foreign(a as usize) {
                return match at.compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x };
            }
            let _h = Hook::enter();
            let o = pre(a as usize, Acc::W);
            rt().flush_pend();
            match at.compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => { post(o, a as usize, $n, mo, true, true); x }
                Err(x) => { post(o, a as usize, $n, fmo, true, false); x }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            let exp = *c;
            let old = $casv(a, exp, v, mo, fmo);
            if old == exp { 1 } else { *c = old; 0 }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(a: *mut $t, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            $cas(a, c, v, mo, fmo)
        }
    };
    (@rmw $t:ty, $at:ty, $n:expr, $name:ident, $f:ident, $acc:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *mut $t, v: $t, mo: i32) -> $t {
            let at = &*(a as *const $at);
            if !managed() || foreign(a as usize) {
                return at.$f(v, SeqCst);
            }
            let _h = Hook::enter();
            let o = pre(a as usize, $acc);
            rt().flush_pend();
            let x = at.$f(v, SeqCst);
            post(o, a as usize, $n, mo, true, true);
            x
        }
    };
}
atomics!(u8, AtomicU8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    std::sync::atomic::fence(SeqCst);
    if managed() && rt().cfg.race && (TID as usize) < NV {
        let me = TID as usize;
        let r = rt();
        if is_acq(mo) {
            let f = r.thr[me].facq;
            vjoin(&mut r.thr[me].vc, &f);
        }
        if is_rel(mo) {
            r.thr[me].frel = r.thr[me].vc;
            r.thr[me].vc[me] += 1;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
