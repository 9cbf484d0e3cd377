//! Model of crossbeam-channel's MPMC channels over the controlled scheduler (the part of the API a
//! store like this can use; `select!` is not modelled).
use mcrt::rt::{managed, rt, Acc, Blk};
use mcrt::{mix, Hook};
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Chan<T> {
    q: UnsafeCell<VecDeque<T>>,
    cap: Option<usize>,
    senders: Cell<usize>,
    receivers: Cell<usize>,
}
unsafe impl<T: Send> Sync for Chan<T> {}
unsafe impl<T: Send> Send for Chan<T> {}
impl<T> Chan<T> {
    fn id(&self) -> u64 {
        mix(0xc4, self as *const _ as *const u8 as u64)
    }
    fn q(&self) -> &mut VecDeque<T> {
        unsafe { &mut *self.q.get() }
    }
}
unsafe fn can_recv<T>(a: *const ()) -> bool {
    let c = &*(a as *const Chan<T>);
    !c.q().is_empty() || c.senders.get() == 0
}
unsafe fn can_send<T>(a: *const ()) -> bool {
    let c = &*(a as *const Chan<T>);
    // a zero-capacity rendezvous is approximated by capacity 1
    c.cap.map_or(true, |n| c.q().len() < n.max(1)) || c.receivers.get() == 0
}
fn wait(pred: unsafe fn(*const ()) -> bool, arg: *const (), timed: bool, what: &'static str) -> bool {
    if unsafe { pred(arg) } {
        return true;
    }
    if !managed() {
        mcrt::rt::die("channel wait outside a session")
    }
    rt().block(Blk { pred, arg, timed, what })
}
fn pt(o: u64, a: Acc) {
    if managed() {
        rt().point(o, a)
    }
}
fn ev(o: u64, a: Acc) {
    if managed() {
        rt().event(o, a);
        if a == Acc::W {
            rt().release(o);
        }
        rt().acquire(o);
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn mk<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan { q: UnsafeCell::new(VecDeque::new()), cap, senders: Cell::new(1), receivers: Cell::new(1) });
    (Sender(c.clone()), Receiver(c))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    mk(None)
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    mk(Some(cap))
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == Self::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool {
        *self == Self::Timeout
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}
macro_rules! errs {
    ($($t:ident $(<$g:ident>)? => $s:literal;)*) => {$(
        impl $(<$g>)? fmt::Display for $t $(<$g>)? { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str($s) } }
    )*};
}
errs! {
    SendError<T> => "sending on a disconnected channel";
    TrySendError<T> => "sending on a full or disconnected channel";
    SendTimeoutError<T> => "timed out or disconnected";
    RecvError => "receiving on an empty and disconnected channel";
    TryRecvError => "receiving on an empty or disconnected channel";
    RecvTimeoutError => "timed out or disconnected";
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TrySendError(..)")
    }
}
impl<T> fmt::Debug for SendTimeoutError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("SendTimeoutError(..)")
    }
}
impl<T: Send> std::error::Error for SendError<T> {}
impl<T: Send> std::error::Error for TrySendError<T> {}
impl<T: Send> std::error::Error for SendTimeoutError<T> {}
impl std::error::Error for RecvError {}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvTimeoutError {}

impl<T> Sender<T> {
    fn arg(&self) -> *const () {
        &*self.0 as *const Chan<T> as *const ()
    }
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        let h = Hook::enter();
        pt(self.0.id(), Acc::W);
        wait(can_send::<T>, self.arg(), false, "channel.send");
        ev(self.0.id(), Acc::W);
        if self.0.receivers.get() == 0 {
            return Err(SendError(v));
        }
        drop(h);
        self.0.q().push_back(v);
        Ok(())
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        let h = Hook::enter();
        pt(self.0.id(), Acc::W);
        ev(self.0.id(), Acc::W);
        if self.0.receivers.get() == 0 {
            return Err(TrySendError::Disconnected(v));
        }
        if !unsafe { can_send::<T>(self.arg()) } {
            return Err(TrySendError::Full(v));
        }
        drop(h);
        self.0.q().push_back(v);
        Ok(())
    }
    pub fn send_timeout(&self, v: T, _d: Duration) -> Result<(), SendTimeoutError<T>> {
        let h = Hook::enter();
        pt(self.0.id(), Acc::W);
        let ok = wait(can_send::<T>, self.arg(), true, "channel.send_timeout");
        ev(self.0.id(), Acc::W);
        if self.0.receivers.get() == 0 {
            return Err(SendTimeoutError::Disconnected(v));
        }
        if !ok {
            return Err(SendTimeoutError::Timeout(v));
        }
        drop(h);
        self.0.q().push_back(v);
        Ok(())
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.0.cap.map_or(false, |c| self.len() >= c)
    }
    pub fn len(&self) -> usize {
        let _h = Hook::enter();
        pt(self.0.id(), Acc::R);
        ev(self.0.id(), Acc::R);
        self.0.q().len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.senders.set(self.0.senders.get() + 1);
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let _h = Hook::enter();
        pt(self.0.id(), Acc::W);
        ev(self.0.id(), Acc::W);
        self.0.senders.set(self.0.senders.get() - 1);
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> Receiver<T> {
    fn arg(&self) -> *const () {
        &*self.0 as *const Chan<T> as *const ()
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let _h = Hook::enter();
        pt(self.0.id(), Acc::W);
        wait(can_recv::<T>, self.arg(), false, "channel.recv");
        ev(self.0.id(), Acc::W);
        self.0.q().pop_front().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let _h = Hook::enter();
        pt(self.0.id(), Acc::W);
        ev(self.0.id(), Acc::W);
        match self.0.q().pop_front() {
            Some(v) => Ok(v),
            None if self.0.senders.get() == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, _d: Duration) -> Result<T, RecvTimeoutError> {
        let _h = Hook::enter();
        pt(self.0.id(), Acc::W);
        let ok = wait(can_recv::<T>, self.arg(), true, "channel.recv_timeout");
        ev(self.0.id(), Acc::W);
        match self.0.q().pop_front() {
            Some(v) => Ok(v),
            None if !ok => Err(RecvTimeoutError::Timeout),
            None => Err(RecvTimeoutError::Disconnected),
        }
    }
    pub fn recv_deadline(&self, _d: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(Duration::ZERO)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.0.cap.map_or(false, |c| self.len() >= c)
    }
    pub fn len(&self) -> usize {
        let _h = Hook::enter();
        pt(self.0.id(), Acc::R);
        ev(self.0.id(), Acc::R);
        self.0.q().len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.receivers.set(self.0.receivers.get() + 1);
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let h = Hook::enter();
        pt(self.0.id(), Acc::W);
        ev(self.0.id(), Acc::W);
        self.0.receivers.set(self.0.receivers.get() - 1);
        if self.0.receivers.get() == 0 {
            // messages that nobody can receive any more are dropped with the last receiver
            let rest: Vec<T> = self.0.q().drain(..).collect();
            drop(h);
            drop(rest);
        }
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
