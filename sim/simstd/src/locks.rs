//! Mutex, RwLock, Condvar with scheduling points, blocking in the simulator, and std's poisoning.
//!
//! RwLock prefers writers like std's futex implementation: while a writer waits, new readers wait too.

use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

use simcore::site::{LOCK, UNLOCK};
use simcore::{block, count, cur_tid, unblock, yield_point, Block};

#[derive(Default)]
struct Waiters(RefCell<Vec<usize>>);
impl Waiters {
    const fn new() -> Self {
        Waiters(RefCell::new(Vec::new()))
    }
    fn wait(&self) {
        let t = cur_tid().expect("lock contention outside of the simulation");
        {
            let _g = simcore::alloc::harness();
            self.0.borrow_mut().push(t);
        }
        count("reach.lock_contention");
        block(Block::Lock);
    }
    fn wake_all(&self) {
        let _g = simcore::alloc::harness();
        let v = std::mem::take(&mut *self.0.borrow_mut());
        for t in v {
            unblock(t);
        }
    }
    fn wake_one(&self) {
        let mut v = self.0.borrow_mut();
        if !v.is_empty() {
            unblock(v.remove(0));
        }
    }
}

////////////////////////////////////////////////////////////////////////////////

pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    /// Somebody finds out whether the lock is free: then a holder must also be interrupted while it has it, and not just where it
    /// reaches a scheduling point anyway.
    tried: Cell<bool>,
    poisoned: Cell<bool>,
    waiters: Waiters,
    data: UnsafeCell<T>,
}
// SAFETY: a simulation runs on one OS thread
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { locked: Cell::new(false), tried: Cell::new(false), poisoned: Cell::new(false), waiters: Waiters::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}

impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        self.locked.set(true);
        let g = MutexGuard { lock: self, panicking: std::thread::panicking(), _not_send: std::marker::PhantomData };
        if self.tried.get() {
            yield_point(LOCK);
        }
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        yield_point(LOCK);
        while self.locked.get() {
            self.waiters.wait();
        }
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        self.tried.set(true);
        yield_point(LOCK);
        if self.locked.get() {
            count("reach.try_lock_busy");
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let r = self.data.get_mut();
        if p {
            Err(PoisonError::new(r))
        } else {
            Ok(r)
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.lock.poisoned.set(true);
        }
        self.lock.locked.set(false);
        self.lock.waiters.wake_all();
        yield_point(UNLOCK);
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

////////////////////////////////////////////////////////////////////////////////

pub struct RwLock<T: ?Sized> {
    writer: Cell<bool>,
    readers: Cell<usize>,
    tried: Cell<bool>,
    writers_waiting: Cell<usize>,
    poisoned: Cell<bool>,
    waiters: Waiters,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    _not_send: std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock {
            writer: Cell::new(false),
            readers: Cell::new(0),
            tried: Cell::new(false),
            writers_waiting: Cell::new(0),
            poisoned: Cell::new(false),
            waiters: Waiters::new(),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.readers.set(self.readers.get() + 1);
        let g = RwLockReadGuard { lock: self, _not_send: std::marker::PhantomData };
        if self.tried.get() {
            yield_point(LOCK);
        }
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.writer.set(true);
        let g = RwLockWriteGuard { lock: self, panicking: std::thread::panicking(), _not_send: std::marker::PhantomData };
        if self.tried.get() {
            yield_point(LOCK);
        }
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn readable(&self) -> bool {
        !self.writer.get() && self.writers_waiting.get() == 0
    }
    fn writable(&self) -> bool {
        !self.writer.get() && self.readers.get() == 0
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        yield_point(LOCK);
        while !self.readable() {
            self.waiters.wait();
        }
        self.rguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        self.tried.set(true);
        yield_point(LOCK);
        if !self.readable() {
            count("reach.try_lock_busy");
            return Err(TryLockError::WouldBlock);
        }
        self.rguard().map_err(TryLockError::Poisoned)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        yield_point(LOCK);
        if !self.writable() {
            self.writers_waiting.set(self.writers_waiting.get() + 1);
            while !self.writable() {
                self.waiters.wait();
            }
            self.writers_waiting.set(self.writers_waiting.get() - 1);
        }
        self.wguard()
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        self.tried.set(true);
        yield_point(LOCK);
        if !self.writable() {
            count("reach.try_lock_busy");
            return Err(TryLockError::WouldBlock);
        }
        self.wguard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let r = self.data.get_mut();
        if p {
            Err(PoisonError::new(r))
        } else {
            Ok(r)
        }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.lock.readers.set(self.lock.readers.get() - 1);
        self.lock.waiters.wake_all();
        yield_point(UNLOCK);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.lock.poisoned.set(true);
        }
        self.lock.writer.set(false);
        self.lock.waiters.wake_all();
        yield_point(UNLOCK);
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

////////////////////////////////////////////////////////////////////////////////

#[derive(Default)]
pub struct Condvar {
    waiters: Waiters,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: Waiters::new() }
    }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = guard.lock;
        let t = cur_tid().expect("condvar outside of the simulation");
        // register before unlocking: no notification between the two can be lost
        self.waiters.0.borrow_mut().push(t);
        drop(guard);
        if self.waiters.0.borrow().contains(&t) {
            block(Block::Lock);
        }
        self.waiters.0.borrow_mut().retain(|&x| x != t);
        lock.lock()
    }
    pub fn wait_while<'a, T, F>(&self, mut guard: MutexGuard<'a, T>, mut cond: F) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while cond(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        guard: MutexGuard<'a, T>,
        dur: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = guard.lock;
        let s = simcore::sim().expect("condvar outside of the simulation");
        let t = cur_tid().unwrap();
        let at = s.now() + dur.as_nanos() as u64;
        let key = s.add_timer(at, simcore::TimerTarget::Tid(t));
        self.waiters.0.borrow_mut().push(t);
        drop(guard);
        if self.waiters.0.borrow().contains(&t) {
            block(Block::Timer);
        }
        let timed_out = self.waiters.0.borrow().contains(&t);
        self.waiters.0.borrow_mut().retain(|&x| x != t);
        simcore::sim().unwrap().cancel_timer(key);
        match lock.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(timed_out))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(timed_out)))),
        }
    }
    pub fn notify_one(&self) {
        yield_point(LOCK);
        self.waiters.wake_one();
    }
    pub fn notify_all(&self) {
        yield_point(LOCK);
        self.waiters.wake_all();
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

pub struct Barrier {
    n: usize,
    state: Mutex<(usize, usize)>,
    cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.state.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
