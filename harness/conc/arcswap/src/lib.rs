//! The real arc-swap with scheduling points in front of loads and stores.
use shimstd::sched::point;
use ::std::sync::Arc;
pub use real::Guard;

pub struct ArcSwap<T>(real::ArcSwap<T>);

impl<T> ArcSwap<T> {
    pub fn new(x: Arc<T>) -> Self {
        Self(real::ArcSwap::new(x))
    }
    pub fn from_pointee(x: T) -> Self {
        Self(real::ArcSwap::from_pointee(x))
    }
    pub fn load(&self) -> Guard<Arc<T>> {
        point("swap load");
        self.0.load()
    }
    pub fn load_full(&self) -> Arc<T> {
        point("swap load");
        self.0.load_full()
    }
    pub fn store(&self, x: Arc<T>) {
        point("swap store");
        self.0.store(x)
    }
    pub fn swap(&self, x: Arc<T>) -> Arc<T> {
        point("swap swap");
        self.0.swap(x)
    }
    pub fn rcu<R: Into<Arc<T>>>(&self, mut f: impl FnMut(&Arc<T>) -> R) -> Arc<T> {
        loop {
            let old = self.load();
            let new = f(&old).into();
            point("swap rcu");
            let prev = self.0.compare_and_swap(&*old, new);
            if Arc::ptr_eq(&prev, &old) {
                return Guard::into_inner(prev);
            }
        }
    }
    pub fn into_inner(self) -> Arc<T> {
        self.0.into_inner()
    }
}
impl<T: ::std::fmt::Debug> ::std::fmt::Debug for ArcSwap<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.0.fmt(f)
    }
}
