//! Scheduler-aware versions of the blocking primitives, wrapping the real ones (which keep the data and
//! the poisoning semantics; they are only ever used through their non-blocking entry points while
//! simulated).
use crate::sim::{self, Kind};
use ::std::cell::Cell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

/// A stopped run is being torn down: the simulated protocol no longer applies.
fn teardown() -> bool {
    ::std::thread::panicking() && sim::stopped()
}

// ---------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> {
    inner: real::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    inner: Option<real::MutexGuard<'a, T>>,
    lock: &'a Mutex<T>,
    at: &'static ::std::panic::Location<'static>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    #[track_caller]
    fn guard<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        let guard = MutexGuard { inner: Some(g), lock: self, at: ::std::panic::Location::caller() };
        sim::held();
        guard
    }

    #[track_caller]
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if sim::active() {
            sim::point(Kind::Lock);
            loop {
                match self.inner.try_lock() {
                    Ok(g) => return Ok(self.guard(g)),
                    Err(TryLockError::Poisoned(p)) => {
                        return Err(PoisonError::new(self.guard(p.into_inner())))
                    }
                    Err(TryLockError::WouldBlock) => {
                        if teardown() {
                            break;
                        }
                        sim::block(addr(self), Kind::Lock)
                    }
                }
            }
        }
        match self.inner.lock() {
            Ok(g) => Ok(self.guard(g)),
            Err(p) => Err(PoisonError::new(self.guard(p.into_inner()))),
        }
    }

    #[track_caller]
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sim::point(Kind::Lock);
        match self.inner.try_lock() {
            Ok(g) => Ok(self.guard(g)),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
                self.guard(p.into_inner()),
            ))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }

    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        if sim::active() {
            sim::wake(addr(self.lock));
            if !::std::thread::panicking() {
                sim::point_at(Kind::Unlock, self.at);
            }
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> {
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    inner: Option<real::RwLockReadGuard<'a, T>>,
    lock: &'a RwLock<T>,
    at: &'static ::std::panic::Location<'static>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    inner: Option<real::RwLockWriteGuard<'a, T>>,
    lock: &'a RwLock<T>,
    at: &'static ::std::panic::Location<'static>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    #[track_caller]
    fn rguard<'a>(&'a self, g: real::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        let guard = RwLockReadGuard { inner: Some(g), lock: self, at: ::std::panic::Location::caller() };
        sim::held();
        guard
    }
    #[track_caller]
    fn wguard<'a>(&'a self, g: real::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        let guard = RwLockWriteGuard { inner: Some(g), lock: self, at: ::std::panic::Location::caller() };
        sim::held();
        guard
    }

    #[track_caller]
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if sim::active() {
            sim::point(Kind::Read);
            loop {
                if sim::must_queue(addr(self)) && !teardown() {
                    sim::block(addr(self), Kind::Read);
                    continue;
                }
                match self.inner.try_read() {
                    Ok(g) => return Ok(self.rguard(g)),
                    Err(TryLockError::Poisoned(p)) => {
                        return Err(PoisonError::new(self.rguard(p.into_inner())))
                    }
                    Err(TryLockError::WouldBlock) => {
                        if teardown() {
                            break;
                        }
                        sim::block(addr(self), Kind::Read)
                    }
                }
            }
        }
        match self.inner.read() {
            Ok(g) => Ok(self.rguard(g)),
            Err(p) => Err(PoisonError::new(self.rguard(p.into_inner()))),
        }
    }

    #[track_caller]
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sim::point(Kind::Read);
        match self.inner.try_read() {
            Ok(g) => Ok(self.rguard(g)),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
                self.rguard(p.into_inner()),
            ))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }

    #[track_caller]
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if sim::active() {
            sim::point(Kind::Write);
            let mut waiting = WriterWaiting { addr: addr(self), on: false };
            loop {
                match self.inner.try_write() {
                    Ok(g) => return Ok(self.wguard(g)),
                    Err(TryLockError::Poisoned(p)) => {
                        return Err(PoisonError::new(self.wguard(p.into_inner())))
                    }
                    Err(TryLockError::WouldBlock) => {
                        if teardown() {
                            break;
                        }
                        waiting.set();
                        sim::block(addr(self), Kind::Write)
                    }
                }
            }
        }
        match self.inner.write() {
            Ok(g) => Ok(self.wguard(g)),
            Err(p) => Err(PoisonError::new(self.wguard(p.into_inner()))),
        }
    }

    #[track_caller]
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sim::point(Kind::Write);
        match self.inner.try_write() {
            Ok(g) => Ok(self.wguard(g)),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
                self.wguard(p.into_inner()),
            ))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }

    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

struct WriterWaiting {
    addr: usize,
    on: bool,
}
impl WriterWaiting {
    fn set(&mut self) {
        if !self.on {
            self.on = true;
            sim::writer_waiting(self.addr, true);
        }
    }
}
impl Drop for WriterWaiting {
    fn drop(&mut self) {
        if self.on {
            sim::writer_waiting(self.addr, false);
            // Readers queued behind this writer re-evaluate.
            sim::wake(self.addr);
        }
    }
}

impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        if sim::active() {
            sim::wake(addr(self.lock));
            if !::std::thread::panicking() {
                sim::point_at(Kind::Unlock, self.at);
            }
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        if sim::active() {
            sim::wake(addr(self.lock));
            if !::std::thread::panicking() {
                sim::point_at(Kind::Unlock, self.at);
            }
        }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(mut this: Self) -> RwLockReadGuard<'a, T> {
        let inner = this.inner.take().map(real::RwLockWriteGuard::downgrade);
        let guard = RwLockReadGuard { inner, lock: this.lock, at: this.at };
        if sim::active() {
            sim::wake(addr(this.lock));
        }
        ::std::mem::forget(this);
        guard
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------- OnceLock

pub struct OnceLock<T> {
    inner: real::OnceLock<T>,
    busy: real::atomic::AtomicBool,
}

struct Busy<'a, T>(&'a OnceLock<T>);
impl<T> Drop for Busy<'_, T> {
    fn drop(&mut self) {
        self.0.busy.store(false, real::atomic::Ordering::SeqCst);
        sim::wake(addr(self.0));
    }
}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock {
            inner: real::OnceLock::new(),
            busy: real::atomic::AtomicBool::new(false),
        }
    }
    #[track_caller]
    pub fn get(&self) -> Option<&T> {
        sim::point(Kind::OnceGet);
        self.inner.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
    fn enter(&self) -> Option<Busy<'_, T>> {
        loop {
            if self.inner.get().is_some() {
                return None;
            }
            if !self.busy.swap(true, real::atomic::Ordering::SeqCst) {
                return Some(Busy(self));
            }
            if teardown() {
                return Some(Busy(self));
            }
            sim::block(addr(self), Kind::OnceSet);
        }
    }
    #[track_caller]
    pub fn set(&self, value: T) -> Result<(), T> {
        if !sim::active() {
            return self.inner.set(value);
        }
        sim::point(Kind::OnceSet);
        match self.enter() {
            None => Err(value),
            Some(_busy) => self.inner.set(value),
        }
    }
    #[track_caller]
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if !sim::active() {
            return self.inner.get_or_init(f);
        }
        sim::point(Kind::OnceGet);
        if let Some(_busy) = self.enter() {
            let value = f();
            let _ = self.inner.set(value);
        }
        self.inner.get().unwrap()
    }
    #[track_caller]
    pub fn wait(&self) -> &T {
        loop {
            if let Some(v) = self.get() {
                return v;
            }
            crate::thread::sleep(::std::time::Duration::from_millis(1));
        }
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.inner.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let o = OnceLock::new();
        if let Some(v) = self.inner.get() {
            let _ = o.inner.set(v.clone());
        }
        o
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let o = OnceLock::new();
        let _ = o.inner.set(t);
        o
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, other: &Self) -> bool {
        self.inner.get() == other.inner.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}

// ---------------------------------------------------------------- LazyLock, Once

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T: ::std::panic::RefUnwindSafe + ::std::panic::UnwindSafe, F: ::std::panic::UnwindSafe> ::std::panic::RefUnwindSafe for LazyLock<T, F> {}
impl<T, F> LazyLock<T, F> {
    #[track_caller]
    pub fn get(this: &LazyLock<T, F>) -> Option<&T> {
        this.cell.get()
    }
    pub fn get_mut(this: &mut LazyLock<T, F>) -> Option<&mut T> {
        this.cell.get_mut()
    }
}

impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    #[track_caller]
    pub fn force_mut(this: &mut LazyLock<T, F>) -> &mut T {
        LazyLock::force(this);
        this.cell.get_mut().unwrap()
    }
    #[track_caller]
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.cell.get_or_init(|| match this.init.take() {
            Some(f) => f(),
            None => ::std::panic!("LazyLock instance has previously been poisoned"),
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}

pub struct Once {
    cell: OnceLock<()>,
}
impl Once {
    pub const fn new() -> Self {
        Once { cell: OnceLock::new() }
    }
    #[track_caller]
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.cell.get_or_init(f);
    }
    /// A closure that panicked leaves no trace here; it may be tried again.
    #[track_caller]
    pub fn call_once_force<F: FnOnce(&real::OnceState)>(&self, f: F) {
        self.cell.get_or_init(|| real::Once::new().call_once_force(f));
    }
    pub fn is_completed(&self) -> bool {
        self.cell.get().is_some()
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once")
    }
}

// ---------------------------------------------------------------- Condvar

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    inner: real::Condvar,
    // Keeps the address unique.
    seq: real::atomic::AtomicU64,
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { inner: real::Condvar::new(), seq: real::atomic::AtomicU64::new(0) }
    }
    #[track_caller]
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = guard.lock;
        if sim::active() {
            // Release without a scheduling point: release and wait are one atomic step.
            guard.inner = None;
            sim::wake(addr(lock));
            ::std::mem::forget(guard);
            sim::block(addr(self), Kind::Lock);
            return lock.lock();
        }
        let g = guard.inner.take().unwrap();
        ::std::mem::forget(guard);
        match self.inner.wait(g) {
            Ok(g) => Ok(lock.guard(g)),
            Err(p) => Err(PoisonError::new(lock.guard(p.into_inner()))),
        }
    }
    #[track_caller]
    pub fn wait_while<'a, T, F>(
        &self,
        mut guard: MutexGuard<'a, T>,
        mut condition: F,
    ) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while condition(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    #[track_caller]
    pub fn wait_timeout<'a, T>(
        &self,
        mut guard: MutexGuard<'a, T>,
        duration: ::std::time::Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = guard.lock;
        if sim::active() {
            guard.inner = None;
            sim::wake(addr(lock));
            ::std::mem::forget(guard);
            let woken = sim::block_timeout(addr(self), duration.as_micros() as u64);
            return match lock.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(!woken))),
                Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(!woken)))),
            };
        }
        let g = guard.inner.take().unwrap();
        ::std::mem::forget(guard);
        match self.inner.wait_timeout(g, duration) {
            Ok((g, t)) => Ok((lock.guard(g), WaitTimeoutResult(t.timed_out()))),
            Err(p) => {
                let (g, t) = p.into_inner();
                Err(PoisonError::new((lock.guard(g), WaitTimeoutResult(t.timed_out()))))
            }
        }
    }
    #[track_caller]
    pub fn wait_timeout_while<'a, T, F>(
        &self,
        mut guard: MutexGuard<'a, T>,
        duration: ::std::time::Duration,
        mut condition: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        loop {
            if !condition(&mut *guard) {
                return Ok((guard, WaitTimeoutResult(false)));
            }
            let (g, t) = self.wait_timeout(guard, duration)?;
            guard = g;
            if t.timed_out() {
                let over = condition(&mut *guard);
                return Ok((guard, WaitTimeoutResult(over)));
            }
        }
    }
    pub fn notify_one(&self) {
        self.notify_all() // spurious wake-ups are allowed
    }
    pub fn notify_all(&self) {
        let _ = &self.seq;
        if sim::active() {
            sim::wake(addr(self));
            sim::point(Kind::Unlock);
        }
        self.inner.notify_all()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
