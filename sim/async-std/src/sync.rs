//! Locks and condition variables with the blocking behaviour of async-lock
//! 2.5 / async-std 1.11 and an adversarial choice of who goes first.
pub use std::sync::{Arc, Weak};

use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::Mutex as StdMutex;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// Waiters of a lock; all of them are woken and compete (barging), so every
/// order of acquisition is a schedule the simulator can choose.
struct WaitList {
    next: u64,
    list: VecDeque<(u64, Waker)>,
}

impl WaitList {
    const fn new() -> Self {
        WaitList { next: 1, list: VecDeque::new() }
    }
    fn register(&mut self, id: &mut u64, w: &Waker) {
        if *id == 0 {
            *id = self.next;
            self.next += 1;
        }
        match self.list.iter_mut().find(|e| e.0 == *id) {
            Some(e) => e.1 = w.clone(),
            None => self.list.push_back((*id, w.clone())),
        }
    }
    fn remove(&mut self, id: u64) {
        self.list.retain(|e| e.0 != id);
    }
    fn wake_all(&mut self) {
        for (_, w) in self.list.drain(..) {
            w.wake();
        }
    }
}

// ---------------------------------------------------------------- Mutex

struct MutexState {
    locked: bool,
    waiters: WaitList,
}

pub struct Mutex<T: ?Sized> {
    state: StdMutex<MutexState>,
    data: UnsafeCell<T>,
}

unsafe impl<T: Send + ?Sized> Send for Mutex<T> {}
unsafe impl<T: Send + ?Sized> Sync for Mutex<T> {}

fn st<S>(m: &StdMutex<S>) -> std::sync::MutexGuard<'_, S> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex {
            state: StdMutex::new(MutexState { locked: false, waiters: WaitList::new() }),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> impl Future<Output = MutexGuard<'_, T>> + '_ {
        LockFuture { mutex: self, id: 0, started: false }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        simrt::preempt("mutex.try_lock");
        let mut s = st(&self.state);
        if s.locked {
            drop(s);
            // callers may retry in a loop: let the others run
            simrt::yield_now();
            None
        } else {
            s.locked = true;
            Some(MutexGuard(self))
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    fn unlock(&self) {
        {
            let mut s = st(&self.state);
            s.locked = false;
            s.waiters.wake_all();
        }
        simrt::preempt("mutex.unlock");
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Mutex")
    }
}

struct LockFuture<'a, T: ?Sized> {
    mutex: &'a Mutex<T>,
    id: u64,
    started: bool,
}
unsafe impl<T: Send + ?Sized> Send for LockFuture<'_, T> {}

impl<'a, T: ?Sized> Future for LockFuture<'a, T> {
    type Output = MutexGuard<'a, T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.started {
            self.started = true;
            simrt::preempt("mutex.lock");
        }
        let this = &mut *self;
        let mut s = st(&this.mutex.state);
        if s.locked {
            s.waiters.register(&mut this.id, cx.waker());
            simrt::count("seam.mutex_contended");
            simrt::waiting_for("a mutex");
            Poll::Pending
        } else {
            s.locked = true;
            if this.id != 0 {
                s.waiters.remove(this.id);
            }
            Poll::Ready(MutexGuard(this.mutex))
        }
    }
}

impl<T: ?Sized> Drop for LockFuture<'_, T> {
    fn drop(&mut self) {
        if self.id != 0 {
            st(&self.mutex.state).waiters.remove(self.id);
        }
    }
}

pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
unsafe impl<T: Send + ?Sized> Send for MutexGuard<'_, T> {}
unsafe impl<T: Sync + ?Sized> Sync for MutexGuard<'_, T> {}

impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn source(guard: &MutexGuard<'a, T>) -> &'a Mutex<T> {
        guard.0
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0.unlock();
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "MutexGuard")
    }
}

// --------------------------------------------------------------- RwLock

struct RwState {
    /// the writers' queue lock of async-lock: held by a writer from its
    /// announcement to the end of its guard, and by upgradable readers
    slot: bool,
    /// announced writer: blocks new readers
    writer: bool,
    readers: usize,
    waiters: WaitList,
}

pub struct RwLock<T: ?Sized> {
    state: StdMutex<RwState>,
    data: UnsafeCell<T>,
}
unsafe impl<T: Send + ?Sized> Send for RwLock<T> {}
unsafe impl<T: Send + Sync + ?Sized> Sync for RwLock<T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock {
            state: StdMutex::new(RwState { slot: false, writer: false, readers: 0, waiters: WaitList::new() }),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}

impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RwLock")
    }
}

impl<T: ?Sized> RwLock<T> {
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        simrt::preempt("rwlock.try_read");
        let mut s = st(&self.state);
        if s.writer {
            return None;
        }
        s.readers += 1;
        Some(RwLockReadGuard(self))
    }
    pub fn read(&self) -> impl Future<Output = RwLockReadGuard<'_, T>> + '_ {
        ReadFuture { lock: self, id: 0, started: false }
    }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> {
        simrt::preempt("rwlock.try_upgradable");
        let mut s = st(&self.state);
        if s.slot || s.writer {
            return None;
        }
        s.slot = true;
        s.readers += 1;
        Some(RwLockUpgradableReadGuard(self))
    }
    pub fn upgradable_read(&self) -> impl Future<Output = RwLockUpgradableReadGuard<'_, T>> + '_ {
        UpgradableFuture { lock: self, id: 0, started: false }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        simrt::preempt("rwlock.try_write");
        let mut s = st(&self.state);
        if s.slot || s.writer || s.readers > 0 {
            return None;
        }
        s.slot = true;
        s.writer = true;
        Some(RwLockWriteGuard(self))
    }
    pub fn write(&self) -> impl Future<Output = RwLockWriteGuard<'_, T>> + '_ {
        WriteFuture { lock: self, id: 0, started: false, announced: false, done: false }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
}

struct ReadFuture<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    id: u64,
    started: bool,
}
unsafe impl<T: Send + Sync + ?Sized> Send for ReadFuture<'_, T> {}
impl<'a, T: ?Sized> Future for ReadFuture<'a, T> {
    type Output = RwLockReadGuard<'a, T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.started {
            self.started = true;
            simrt::preempt("rwlock.read");
        }
        let this = &mut *self;
        let mut s = st(&this.lock.state);
        if s.writer {
            s.waiters.register(&mut this.id, cx.waker());
            simrt::count("seam.page_lock_contended");
            simrt::waiting_for("a read lock");
            return Poll::Pending;
        }
        s.readers += 1;
        Poll::Ready(RwLockReadGuard(this.lock))
    }
}
impl<T: ?Sized> Drop for ReadFuture<'_, T> {
    fn drop(&mut self) {
        if self.id != 0 {
            st(&self.lock.state).waiters.remove(self.id);
        }
    }
}

struct UpgradableFuture<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    id: u64,
    started: bool,
}
unsafe impl<T: Send + Sync + ?Sized> Send for UpgradableFuture<'_, T> {}
impl<'a, T: ?Sized> Future for UpgradableFuture<'a, T> {
    type Output = RwLockUpgradableReadGuard<'a, T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.started {
            self.started = true;
            simrt::preempt("rwlock.upgradable_read");
        }
        let this = &mut *self;
        let mut s = st(&this.lock.state);
        if s.slot || s.writer {
            s.waiters.register(&mut this.id, cx.waker());
            simrt::waiting_for("an upgradable read lock");
            return Poll::Pending;
        }
        s.slot = true;
        s.readers += 1;
        Poll::Ready(RwLockUpgradableReadGuard(this.lock))
    }
}
impl<T: ?Sized> Drop for UpgradableFuture<'_, T> {
    fn drop(&mut self) {
        if self.id != 0 {
            st(&self.lock.state).waiters.remove(self.id);
        }
    }
}

struct WriteFuture<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    id: u64,
    started: bool,
    announced: bool,
    done: bool,
}
unsafe impl<T: Send + ?Sized> Send for WriteFuture<'_, T> {}
impl<'a, T: ?Sized> Future for WriteFuture<'a, T> {
    type Output = RwLockWriteGuard<'a, T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.started {
            self.started = true;
            simrt::preempt("rwlock.write");
        }
        let this = &mut *self;
        let mut s = st(&this.lock.state);
        if !this.announced {
            if s.slot {
                s.waiters.register(&mut this.id, cx.waker());
                simrt::count("seam.page_lock_contended");
                simrt::waiting_for("a write lock");
                return Poll::Pending;
            }
            s.slot = true;
            s.writer = true;
            this.announced = true;
        }
        if s.readers > 0 {
            s.waiters.register(&mut this.id, cx.waker());
            simrt::count("seam.page_lock_contended");
            simrt::waiting_for("a write lock (readers present)");
            return Poll::Pending;
        }
        this.done = true;
        Poll::Ready(RwLockWriteGuard(this.lock))
    }
}
impl<T: ?Sized> Drop for WriteFuture<'_, T> {
    fn drop(&mut self) {
        let mut s = st(&self.lock.state);
        if self.id != 0 {
            s.waiters.remove(self.id);
        }
        if self.announced && !self.done {
            s.slot = false;
            s.writer = false;
            s.waiters.wake_all();
        }
    }
}

pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

macro_rules! guard_common {
    ($g:ident) => {
        unsafe impl<T: Send + Sync + ?Sized> Send for $g<'_, T> {}
        unsafe impl<T: Sync + ?Sized> Sync for $g<'_, T> {}
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.data.get() }
            }
        }
        impl<T: ?Sized> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, stringify!($g))
            }
        }
    };
}
guard_common!(RwLockReadGuard);
guard_common!(RwLockUpgradableReadGuard);
guard_common!(RwLockWriteGuard);

impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}

impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        {
            let mut s = st(&self.0.state);
            s.readers -= 1;
            if s.readers == 0 {
                s.waiters.wake_all();
            }
        }
        simrt::preempt("rwlock.read_unlock");
    }
}
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> {
    fn drop(&mut self) {
        {
            let mut s = st(&self.0.state);
            s.readers -= 1;
            s.slot = false;
            s.waiters.wake_all();
        }
        simrt::preempt("rwlock.upgradable_unlock");
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        {
            let mut s = st(&self.0.state);
            s.writer = false;
            s.slot = false;
            s.waiters.wake_all();
        }
        simrt::preempt("rwlock.write_unlock");
    }
}

impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(guard: Self) -> RwLockReadGuard<'a, T> {
        let lock = guard.0;
        std::mem::forget(guard);
        {
            let mut s = st(&lock.state);
            s.writer = false;
            s.slot = false;
            s.readers += 1;
            s.waiters.wake_all();
        }
        simrt::preempt("rwlock.downgrade");
        RwLockReadGuard(lock)
    }
    pub fn downgrade_to_upgradable(guard: Self) -> RwLockUpgradableReadGuard<'a, T> {
        let lock = guard.0;
        std::mem::forget(guard);
        {
            let mut s = st(&lock.state);
            s.writer = false;
            s.readers += 1;
            s.waiters.wake_all();
        }
        simrt::preempt("rwlock.downgrade");
        RwLockUpgradableReadGuard(lock)
    }
}

impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn downgrade(guard: Self) -> RwLockReadGuard<'a, T> {
        let lock = guard.0;
        std::mem::forget(guard);
        {
            let mut s = st(&lock.state);
            s.slot = false;
            s.waiters.wake_all();
        }
        simrt::preempt("rwlock.downgrade");
        RwLockReadGuard(lock)
    }
    pub fn try_upgrade(guard: Self) -> Result<RwLockWriteGuard<'a, T>, Self> {
        simrt::preempt("rwlock.try_upgrade");
        let lock = guard.0;
        let mut s = st(&lock.state);
        if s.readers == 1 {
            s.readers = 0;
            s.writer = true;
            drop(s);
            std::mem::forget(guard);
            Ok(RwLockWriteGuard(lock))
        } else {
            drop(s);
            Err(guard)
        }
    }
    pub async fn upgrade(guard: Self) -> RwLockWriteGuard<'a, T> {
        let lock = guard.0;
        std::mem::forget(guard);
        {
            let mut s = st(&lock.state);
            s.readers -= 1;
            s.writer = true;
        }
        WriteFuture { lock, id: 0, started: false, announced: true, done: false }.await
    }
}

// -------------------------------------------------------------- Condvar

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

struct CvEntry {
    id: u64,
    /// None: notified, not yet resumed
    waker: Option<Waker>,
}

struct CvState {
    next: u64,
    entries: Vec<CvEntry>,
}

/// `notify_one` wakes exactly one waiter, chosen by the simulator.
pub struct Condvar {
    state: StdMutex<CvState>,
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { state: StdMutex::new(CvState { next: 1, entries: Vec::new() }) }
    }

    pub async fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        let mutex = MutexGuard::source(&guard);
        CvFuture { cv: self, guard: Some(guard), id: 0 }.await;
        mutex.lock().await
    }

    pub async fn wait_until<'a, T, F>(&self, mut guard: MutexGuard<'a, T>, mut cond: F) -> MutexGuard<'a, T>
    where
        F: FnMut(&mut T) -> bool,
    {
        while !cond(&mut *guard) {
            guard = self.wait(guard).await;
        }
        guard
    }

    pub async fn wait_timeout<'a, T>(
        &self,
        guard: MutexGuard<'a, T>,
        dur: Duration,
    ) -> (MutexGuard<'a, T>, WaitTimeoutResult) {
        let mutex = MutexGuard::source(&guard);
        let f = CvFuture { cv: self, guard: Some(guard), id: 0 };
        let timed_out = crate::future::timeout(dur, f).await.is_err();
        (mutex.lock().await, WaitTimeoutResult(timed_out))
    }

    pub async fn wait_timeout_until<'a, T, F>(
        &self,
        mut guard: MutexGuard<'a, T>,
        dur: Duration,
        mut cond: F,
    ) -> (MutexGuard<'a, T>, WaitTimeoutResult)
    where
        F: FnMut(&mut T) -> bool,
    {
        let end = simrt::now() + dur.as_nanos() as u64;
        loop {
            if cond(&mut *guard) {
                return (guard, WaitTimeoutResult(false));
            }
            let now = simrt::now();
            if now >= end {
                return (guard, WaitTimeoutResult(true));
            }
            guard = self.wait_timeout(guard, Duration::from_nanos(end - now)).await.0;
        }
    }

    fn notify_some(&self) {
        let mut s = st(&self.state);
        let waiting: Vec<usize> = (0..s.entries.len()).filter(|&i| s.entries[i].waker.is_some()).collect();
        if waiting.is_empty() {
            simrt::count("seam.notify_without_waiter");
            return;
        }
        let k = if waiting.len() > 1 { simrt::sched_value(waiting.len() as u64) as usize } else { 0 };
        simrt::count("seam.notify_with_waiter");
        if waiting.len() > 1 {
            simrt::count("seam.notify_chose_among_several");
        }
        let w = s.entries[waiting[k]].waker.take().unwrap();
        drop(s);
        w.wake();
    }

    pub fn notify_one(&self) {
        self.notify_some();
        simrt::preempt("condvar.notify_one");
    }

    pub fn notify_all(&self) {
        let ws: Vec<Waker> = st(&self.state).entries.iter_mut().filter_map(|e| e.waker.take()).collect();
        for w in ws {
            w.wake();
        }
        simrt::preempt("condvar.notify_all");
    }
}

impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Condvar")
    }
}

struct CvFuture<'a, 'b, T> {
    cv: &'b Condvar,
    guard: Option<MutexGuard<'a, T>>,
    id: u64,
}
impl<T> Unpin for CvFuture<'_, '_, T> {}

impl<T> Future for CvFuture<'_, '_, T> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        if let Some(g) = this.guard.take() {
            {
                let mut s = st(&this.cv.state);
                this.id = s.next;
                s.next += 1;
                let id = this.id;
                s.entries.push(CvEntry { id, waker: Some(cx.waker().clone()) });
            }
            simrt::count("seam.condvar_wait");
            drop(g);
            simrt::waiting_for("a condition variable");
            return Poll::Pending;
        }
        let mut s = st(&this.cv.state);
        let pos = s.entries.iter().position(|e| e.id == this.id).expect("condvar entry");
        if s.entries[pos].waker.is_none() {
            s.entries.remove(pos);
            this.id = 0;
            Poll::Ready(())
        } else {
            s.entries[pos].waker = Some(cx.waker().clone());
            simrt::waiting_for("a condition variable");
            Poll::Pending
        }
    }
}

impl<T> Drop for CvFuture<'_, '_, T> {
    fn drop(&mut self) {
        if self.id != 0 {
            let notified = {
                let mut s = st(&self.cv.state);
                let pos = s.entries.iter().position(|e| e.id == self.id);
                match pos {
                    Some(p) => s.entries.remove(p).waker.is_none(),
                    None => false,
                }
            };
            if notified {
                // as async-std does: an unused notification goes to the next waiter
                self.cv.notify_some();
            }
        }
    }
}

// -------------------------------------------------------------- Barrier

#[derive(Debug, Clone)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}

struct BarrierState {
    count: usize,
    generation: u64,
}

pub struct Barrier {
    n: usize,
    state: Mutex<BarrierState>,
    cv: Condvar,
}
impl Barrier {
    pub fn new(n: usize) -> Barrier {
        Barrier { n, state: Mutex::new(BarrierState { count: 0, generation: 0 }), cv: Condvar::new() }
    }
    pub async fn wait(&self) -> BarrierWaitResult {
        let mut g = self.state.lock().await;
        let generation = g.generation;
        g.count += 1;
        if g.count < self.n {
            while g.generation == generation {
                g = self.cv.wait(g).await;
            }
            BarrierWaitResult(false)
        } else {
            g.count = 0;
            g.generation += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
