pub use ::std::sync::*;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use crate::sched;

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}

// -- Mutex --------------------------------------------------------------------------------------
#[derive(Default)]
pub struct Mutex<T: ?Sized>(real::Mutex<T>);

pub struct MutexGuard<'a, T: ?Sized> {
    inner: Option<real::MutexGuard<'a, T>>,
    addr: usize,
}

impl<T> Mutex<T> {
    pub const fn new(x: T) -> Self {
        Self(real::Mutex::new(x))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}

fn wrap<G, W>(r: LockResult<G>, f: impl FnOnce(G) -> W) -> LockResult<W> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let addr = addr(self);
        let w = |g| MutexGuard { inner: Some(g), addr };
        if !sched::is_controlled() {
            return wrap(self.0.lock(), w);
        }
        sched::point("lock");
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(w(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(w(e.into_inner()))),
                Err(TryLockError::WouldBlock) => sched::block(addr, true),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point("try_lock");
        let addr = addr(self);
        match self.0.try_lock() {
            Ok(g) => Ok(MutexGuard { inner: Some(g), addr }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), addr }))),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(x: T) -> Self {
        Self::new(x)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        sched::released(self.addr);
    }
}

// -- RwLock -------------------------------------------------------------------------------------
#[derive(Default)]
pub struct RwLock<T: ?Sized>(real::RwLock<T>);

pub struct RwLockReadGuard<'a, T: ?Sized> {
    inner: Option<real::RwLockReadGuard<'a, T>>,
    addr: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    inner: Option<real::RwLockWriteGuard<'a, T>>,
    addr: usize,
}

impl<T> RwLock<T> {
    pub const fn new(x: T) -> Self {
        Self(real::RwLock::new(x))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let addr = addr(self);
        let w = |g| RwLockReadGuard { inner: Some(g), addr };
        if !sched::is_controlled() {
            return wrap(self.0.read(), w);
        }
        sched::point("read");
        loop {
            // Like std's lock on Linux: a reader does not overtake a waiting writer.
            if sched::writer_waits(addr) {
                sched::block(addr, false);
            }
            match self.0.try_read() {
                Ok(g) => return Ok(w(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(w(e.into_inner()))),
                Err(TryLockError::WouldBlock) => sched::block(addr, false),
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let addr = addr(self);
        let w = |g| RwLockWriteGuard { inner: Some(g), addr };
        if !sched::is_controlled() {
            return wrap(self.0.write(), w);
        }
        sched::point("write");
        loop {
            match self.0.try_write() {
                Ok(g) => return Ok(w(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(w(e.into_inner()))),
                Err(TryLockError::WouldBlock) => sched::block(addr, true),
            }
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sched::point("try_read");
        let addr = addr(self);
        match self.0.try_read() {
            Ok(g) => Ok(RwLockReadGuard { inner: Some(g), addr }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { inner: Some(e.into_inner()), addr }))),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sched::point("try_write");
        let addr = addr(self);
        match self.0.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { inner: Some(g), addr }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { inner: Some(e.into_inner()), addr }))),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(x: T) -> Self {
        Self::new(x)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        sched::released(self.addr);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        sched::released(self.addr);
    }
}

// -- OnceLock -----------------------------------------------------------------------------------
pub struct OnceLock<T> {
    cell: real::OnceLock<T>,
    busy: real::atomic::AtomicBool,
}

struct Busy<'a>(&'a real::atomic::AtomicBool, usize);
impl Drop for Busy<'_> {
    fn drop(&mut self) {
        self.0.store(false, real::atomic::Ordering::SeqCst);
        sched::released(self.1);
    }
}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        Self { cell: real::OnceLock::new(), busy: real::atomic::AtomicBool::new(false) }
    }
    pub fn get(&self) -> Option<&T> {
        sched::point("once get");
        self.cell.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.cell.get_mut()
    }
    pub fn take(&mut self) -> Option<T> {
        self.cell.take()
    }
    pub fn into_inner(self) -> Option<T> {
        self.cell.into_inner()
    }
    pub fn set(&self, x: T) -> Result<(), T> {
        let mut x = Some(x);
        self.get_or_init(|| x.take().unwrap());
        match x {
            None => Ok(()),
            Some(x) => Err(x),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if !sched::is_controlled() {
            return self.cell.get_or_init(f);
        }
        sched::point("once init");
        let a = addr(self);
        loop {
            if let Some(x) = self.cell.get() {
                return x;
            }
            if self.busy.swap(true, real::atomic::Ordering::SeqCst) {
                sched::block(a, true);
                continue;
            }
            let busy = Busy(&self.busy, a);
            let x = f();
            if self.cell.set(x).is_err() {
                panic!("reentrant init");
            }
            drop(busy);
            return self.cell.get().unwrap();
        }
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        Self { cell: self.cell.clone(), busy: Default::default() }
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(x: T) -> Self {
        Self { cell: real::OnceLock::from(x), busy: Default::default() }
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.cell == o.cell
    }
}

// -- atomics ------------------------------------------------------------------------------------
pub mod atomic {
    pub use ::std::sync::atomic::*;
    use ::std::sync::atomic as real;
    use crate::sched::point;

    macro_rules! atomic {
        ($name:ident, $t:ty, [$($op:ident),*]) => {
            #[derive(Default, Debug)]
            pub struct $name(real::$name);
            impl $name {
                pub const fn new(x: $t) -> Self { Self(real::$name::new(x)) }
                pub fn load(&self, o: Ordering) -> $t { point("load"); self.0.load(o) }
                pub fn store(&self, x: $t, o: Ordering) { point("store"); self.0.store(x, o) }
                pub fn swap(&self, x: $t, o: Ordering) -> $t { point("swap"); self.0.swap(x, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point("cas"); self.0.compare_exchange(a, b, s, f) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, s, f) }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                $(pub fn $op(&self, x: $t, o: Ordering) -> $t { point(stringify!($op)); self.0.$op(x, o) })*
            }
            impl From<$t> for $name { fn from(x: $t) -> Self { Self::new(x) } }
        };
    }
    atomic!(AtomicBool, bool, [fetch_or, fetch_and, fetch_xor]);
    atomic!(AtomicU8, u8, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_max, fetch_min]);
    atomic!(AtomicU32, u32, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_max, fetch_min]);
    atomic!(AtomicU64, u64, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_max, fetch_min]);
    atomic!(AtomicUsize, usize, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_max, fetch_min]);
}
