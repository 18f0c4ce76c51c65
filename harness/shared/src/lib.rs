//! The standard library as the generated code sees it under the controlled scheduler: locks
//! and atomics are shuttle's, everything else is the real one.
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{Arc, Condvar, Mutex, MutexGuard, Once, RwLock, RwLockReadGuard, RwLockWriteGuard, Weak};
    pub mod atomic {
        pub use ::std::sync::atomic::{compiler_fence, Ordering};
        pub use shuttle::sync::atomic::{fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize};
    }
}
pub mod thread {
    pub use shuttle::thread::*;
}
pub use shuttle;
