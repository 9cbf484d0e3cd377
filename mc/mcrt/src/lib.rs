#![feature(thread_local)]
#![allow(invalid_runtime_symbol_definitions, unknown_lints, static_mut_refs, clippy::all, non_snake_case, internal_features)]
//! Controlled runtime: cooperative scheduler over real OS threads, instrumented-memory hooks
//! (`__tsan_*`), interposed libc calls, crash log, fault injection and the systematic explorer.
pub mod arena;
pub mod explore;
pub mod image;
pub mod rt;
pub mod sys;
pub mod tsan;

#[thread_local]
pub static mut TID: u32 = u32::MAX;
#[thread_local]
pub static mut USER: bool = false;

pub use rt::{rt, Acc, Ev};

/// RAII: leave "user code" mode while harness code runs inside a hook.
pub struct Hook(bool);
impl Hook {
    #[inline(always)]
    pub fn enter() -> Hook {
        unsafe {
            let h = Hook(USER);
            USER = false;
            h
        }
    }
}
impl Drop for Hook {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { USER = self.0 }
    }
}

/// Run code under test: allocations go to the arena, libc hooks are active.
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { USER = self.0 }
        }
    }
    unsafe {
        let _g = G(USER);
        USER = true;
        f()
    }
}

#[inline(always)]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    h
}

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = mix(self.0, hash_bytes(b));
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = mix(self.0, v);
    }
    fn write_u32(&mut self, v: u32) {
        self.0 = mix(self.0, v as u64);
    }
    fn write_u8(&mut self, v: u8) {
        self.0 = mix(self.0, v as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.0 = mix(self.0, v as u64);
    }
}
pub type BH = std::hash::BuildHasherDefault<IdHash>;
pub type Map<K, V> = std::collections::HashMap<K, V, BH>;
pub type Set<K> = std::collections::HashSet<K, BH>;
