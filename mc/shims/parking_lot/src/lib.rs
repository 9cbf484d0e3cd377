//! Model of parking_lot's locks over the controlled scheduler. Semantics modelled: a waiting writer
//! that already owns the writer bit blocks new (non-recursive) readers; one upgradable reader at a
//! time; upgrading waits for the plain readers.
use mcrt::rt::{managed, rt, Acc, Blk};
use mcrt::{mix, Hook};
use std::cell::Cell;
use std::time::{Duration, Instant};

fn cant() -> ! {
    mcrt::rt::die("lock contention outside a session")
}

fn wait(pred: unsafe fn(*const ()) -> bool, arg: *const (), timed: bool, what: &'static str) -> bool {
    if unsafe { pred(arg) } {
        return true;
    }
    if !managed() {
        cant()
    }
    rt().block(Blk { pred, arg, timed, what })
}
fn pt(obj: u64, acc: Acc) {
    if managed() {
        rt().point(obj, acc)
    }
}
fn got(obj: u64, acc: Acc) {
    if managed() {
        rt().event(obj, acc);
        rt().acquire(obj)
    }
}
fn rel(obj: u64, acc: Acc, tried: bool) {
    if managed() {
        if tried {
            rt().point(obj, Acc::W)
        }
        rt().event(obj, acc);
        rt().release(obj)
    }
}

pub struct RawMutex {
    locked: Cell<bool>,
    tried: Cell<bool>,
}
unsafe impl Sync for RawMutex {}
unsafe impl Send for RawMutex {}
impl RawMutex {
    fn id(&self) -> u64 {
        mix(0x4d, self as *const _ as u64)
    }
}
unsafe fn m_free(a: *const ()) -> bool {
    !(*(a as *const RawMutex)).locked.get()
}
unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: RawMutex = RawMutex { locked: Cell::new(false), tried: Cell::new(false) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        let _h = Hook::enter();
        pt(self.id(), Acc::W);
        wait(m_free, self as *const _ as *const (), false, "mutex");
        self.locked.set(true);
        got(self.id(), Acc::W);
    }
    fn try_lock(&self) -> bool {
        let _h = Hook::enter();
        self.tried.set(true);
        pt(self.id(), Acc::W);
        got(self.id(), Acc::W);
        if self.locked.get() {
            return false;
        }
        self.locked.set(true);
        true
    }
    unsafe fn unlock(&self) {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, self.tried.get());
        self.locked.set(false);
    }
    fn is_locked(&self) -> bool {
        let _h = Hook::enter();
        self.tried.set(true);
        pt(self.id(), Acc::R);
        got(self.id(), Acc::R);
        self.locked.get()
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _t: Duration) -> bool {
        let _h = Hook::enter();
        self.tried.set(true);
        pt(self.id(), Acc::W);
        if !wait(m_free, self as *const _ as *const (), true, "mutex(timed)") {
            return false;
        }
        self.locked.set(true);
        got(self.id(), Acc::W);
        true
    }
    fn try_lock_until(&self, _t: Instant) -> bool {
        self.try_lock_for(Duration::ZERO)
    }
}

pub struct RawRwLock {
    w: Cell<bool>,
    up: Cell<bool>,
    r: Cell<u32>,
    tried: Cell<bool>,
}
unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}
impl RawRwLock {
    fn id(&self) -> u64 {
        mix(0x52, self as *const _ as u64)
    }
    fn arg(&self) -> *const () {
        self as *const _ as *const ()
    }
    fn try_pt(&self, a: Acc) {
        self.tried.set(true);
        pt(self.id(), a);
        got(self.id(), a);
    }
}
unsafe fn l<'a>(a: *const ()) -> &'a RawRwLock {
    &*(a as *const RawRwLock)
}
unsafe fn no_w(a: *const ()) -> bool {
    !l(a).w.get()
}
unsafe fn rec_ok(a: *const ()) -> bool {
    !l(a).w.get() || l(a).r.get() > 0
}
unsafe fn no_w_up(a: *const ()) -> bool {
    !l(a).w.get() && !l(a).up.get()
}
unsafe fn no_r(a: *const ()) -> bool {
    l(a).r.get() == 0
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: RawRwLock =
        RawRwLock { w: Cell::new(false), up: Cell::new(false), r: Cell::new(0), tried: Cell::new(false) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        let _h = Hook::enter();
        pt(self.id(), Acc::R);
        wait(no_w, self.arg(), false, "rwlock.read");
        self.r.set(self.r.get() + 1);
        got(self.id(), Acc::R);
    }
    fn try_lock_shared(&self) -> bool {
        let _h = Hook::enter();
        self.try_pt(Acc::R);
        if self.w.get() {
            return false;
        }
        self.r.set(self.r.get() + 1);
        true
    }
    unsafe fn unlock_shared(&self) {
        let _h = Hook::enter();
        rel(self.id(), Acc::R, self.tried.get());
        self.r.set(self.r.get() - 1);
    }
    fn lock_exclusive(&self) {
        let _h = Hook::enter();
        pt(self.id(), Acc::W);
        wait(no_w_up, self.arg(), false, "rwlock.write");
        self.w.set(true);
        if self.r.get() != 0 {
            got(self.id(), Acc::W);
            wait(no_r, self.arg(), false, "rwlock.write(readers)");
        }
        got(self.id(), Acc::W);
    }
    fn try_lock_exclusive(&self) -> bool {
        let _h = Hook::enter();
        self.try_pt(Acc::W);
        if self.w.get() || self.up.get() || self.r.get() != 0 {
            return false;
        }
        self.w.set(true);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, self.tried.get());
        self.w.set(false);
    }
    fn is_locked(&self) -> bool {
        let _h = Hook::enter();
        self.try_pt(Acc::R);
        self.w.get() || self.up.get() || self.r.get() != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        let _h = Hook::enter();
        self.try_pt(Acc::R);
        self.w.get()
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, self.tried.get());
        self.w.set(false);
        self.r.set(self.r.get() + 1);
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        let _h = Hook::enter();
        pt(self.id(), Acc::R);
        wait(rec_ok, self.arg(), false, "rwlock.read_recursive");
        self.r.set(self.r.get() + 1);
        got(self.id(), Acc::R);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        let _h = Hook::enter();
        self.try_pt(Acc::R);
        if self.w.get() && self.r.get() == 0 {
            return false;
        }
        self.r.set(self.r.get() + 1);
        true
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _t: Duration) -> bool {
        let _h = Hook::enter();
        self.tried.set(true);
        pt(self.id(), Acc::R);
        if !wait(no_w, self.arg(), true, "rwlock.read(timed)") {
            return false;
        }
        self.r.set(self.r.get() + 1);
        got(self.id(), Acc::R);
        true
    }
    fn try_lock_shared_until(&self, _t: Instant) -> bool {
        self.try_lock_shared_for(Duration::ZERO)
    }
    fn try_lock_exclusive_for(&self, _t: Duration) -> bool {
        let _h = Hook::enter();
        self.tried.set(true);
        pt(self.id(), Acc::W);
        if !wait(no_w_up, self.arg(), true, "rwlock.write(timed)") {
            return false;
        }
        self.w.set(true);
        if !wait(no_r, self.arg(), true, "rwlock.write(timed)") {
            self.w.set(false);
            return false;
        }
        got(self.id(), Acc::W);
        true
    }
    fn try_lock_exclusive_until(&self, _t: Instant) -> bool {
        self.try_lock_exclusive_for(Duration::ZERO)
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _t: Duration) -> bool {
        let _h = Hook::enter();
        self.tried.set(true);
        pt(self.id(), Acc::R);
        if !wait(rec_ok, self.arg(), true, "rwlock.read_recursive(timed)") {
            return false;
        }
        self.r.set(self.r.get() + 1);
        got(self.id(), Acc::R);
        true
    }
    fn try_lock_shared_recursive_until(&self, _t: Instant) -> bool {
        self.try_lock_shared_recursive_for(Duration::ZERO)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        let _h = Hook::enter();
        pt(self.id(), Acc::W);
        wait(no_w_up, self.arg(), false, "rwlock.upgradable_read");
        self.up.set(true);
        self.r.set(self.r.get() + 1);
        got(self.id(), Acc::W);
    }
    fn try_lock_upgradable(&self) -> bool {
        let _h = Hook::enter();
        self.try_pt(Acc::W);
        if self.w.get() || self.up.get() {
            return false;
        }
        self.up.set(true);
        self.r.set(self.r.get() + 1);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, self.tried.get());
        self.up.set(false);
        self.r.set(self.r.get() - 1);
    }
    unsafe fn upgrade(&self) {
        let _h = Hook::enter();
        pt(self.id(), Acc::W);
        self.up.set(false);
        self.r.set(self.r.get() - 1);
        self.w.set(true);
        if self.r.get() != 0 {
            got(self.id(), Acc::W);
            wait(no_r, self.arg(), false, "rwlock.upgrade");
        }
        got(self.id(), Acc::W);
    }
    unsafe fn try_upgrade(&self) -> bool {
        let _h = Hook::enter();
        self.try_pt(Acc::W);
        if self.r.get() != 1 {
            return false;
        }
        self.up.set(false);
        self.r.set(0);
        self.w.set(true);
        true
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, self.tried.get());
        self.up.set(false);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, self.tried.get());
        self.w.set(false);
        self.up.set(true);
        self.r.set(self.r.get() + 1);
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(unsafe { mcrt::TID } as usize + 1).unwrap_or(std::num::NonZeroUsize::MAX)
    }
}

pub type RawFairMutex = RawMutex;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub use lock_api;
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::from_raw(<RawMutex as lock_api::RawMutex>::INIT, v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::from_raw(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

/// Condition variable: tickets; a notification releases the oldest waiter(s).
pub struct Condvar {
    next: Cell<u64>,
    served: Cell<u64>,
}
unsafe impl Sync for Condvar {}
unsafe impl Send for Condvar {}
struct CvWait<'a> {
    cv: &'a Condvar,
    ticket: u64,
}
unsafe fn cv_pred(a: *const ()) -> bool {
    let w = &*(a as *const CvWait);
    w.cv.served.get() > w.ticket
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { next: Cell::new(0), served: Cell::new(0) }
    }
    fn id(&self) -> u64 {
        mix(0xc0, self as *const _ as u64)
    }
    fn wait_inner<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, timed: bool) -> bool {
        let _h = Hook::enter();
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        let t = self.next.get();
        self.next.set(t + 1);
        unsafe { lock_api::RawMutex::unlock(raw) };
        let w = CvWait { cv: self, ticket: t };
        pt(self.id(), Acc::W);
        let ok = wait(cv_pred, &w as *const _ as *const (), timed, "condvar");
        got(self.id(), Acc::W);
        if !ok && self.served.get() <= t {
            self.served.set(self.served.get().max(t + 1).min(self.next.get()));
        }
        lock_api::RawMutex::lock(raw);
        ok
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.wait_inner(g, false);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _d: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.wait_inner(g, true))
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _d: Instant) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.wait_inner(g, true))
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut c: impl FnMut(&mut T) -> bool) {
        while c(&mut *g) {
            self.wait(g)
        }
    }
    pub fn notify_one(&self) -> bool {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, true);
        if self.served.get() < self.next.get() {
            self.served.set(self.served.get() + 1);
            return true;
        }
        false
    }
    pub fn notify_all(&self) -> usize {
        let _h = Hook::enter();
        rel(self.id(), Acc::W, true);
        let n = self.next.get() - self.served.get();
        self.served.set(self.next.get());
        n as usize
    }
}
