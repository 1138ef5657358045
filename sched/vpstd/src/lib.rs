//! The standard library with its synchronisation on a controlled scheduler.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::atomic;
    pub use shuttle::sync::mpsc;
    pub use shuttle::sync::{
        Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
    };
    use ::std::cell::UnsafeCell;
    use ::std::fmt;
    use ::std::ops::Deref;

    /// As in std; one process runs one schedule, so statics start afresh.
    pub struct OnceLock<T> {
        once: Once,
        value: UnsafeCell<Option<T>>,
    }
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    unsafe impl<T: Send> Send for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { once: Once::new(), value: UnsafeCell::new(None) }
        }
        pub fn get(&self) -> Option<&T> {
            if self.once.is_completed() {
                unsafe { (*self.value.get()).as_ref() }
            } else {
                None
            }
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.value.get_mut().as_mut()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            let mut v = Some(v);
            self.get_or_init(|| v.take().unwrap());
            match v {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.once.call_once(|| unsafe { *self.value.get() = Some(f()) });
            unsafe { (*self.value.get()).as_ref().unwrap() }
        }
        pub fn into_inner(self) -> Option<T> {
            self.value.into_inner()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "OnceLock")
        }
    }
    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: UnsafeCell<Option<F>>,
    }
    unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { cell: OnceLock::new(), init: UnsafeCell::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| unsafe { (*this.init.get()).take().unwrap()() })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            LazyLock::force(self)
        }
    }
}
pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{current, park, sleep, spawn, yield_now, AccessError, Builder, JoinHandle, LocalKey, Thread, ThreadId};
}
pub mod hint {
    pub use ::std::hint::*;
    pub use shuttle::hint::spin_loop;
}

#[macro_export]
macro_rules! thread_local {
    ($($t:tt)*) => { $crate::__shuttle::thread_local!{ $($t)* } };
}
#[doc(hidden)]
pub use shuttle as __shuttle;
