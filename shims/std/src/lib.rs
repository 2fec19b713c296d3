//! std with controlled locks, atomics, threads and hash maps.
#![no_std]
extern crate std as real_std;
pub use real_std::*;

pub mod sync {
    pub use real_std::sync::*;
    pub use vsched::sync::{Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use real_std::sync::atomic::*;
        pub use vsched::sync::atomic::{fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize};
    }
}
pub mod thread {
    pub use real_std::thread::*;
    pub use vsched::thread::{scope, sleep, spawn, yield_now, Builder, JoinHandle, Scope, ScopedJoinHandle};
}
pub mod hint {
    pub use real_std::hint::*;
    pub fn spin_loop() {
        vsched::thread::yield_now()
    }
}
pub mod collections {
    pub use real_std::collections::*;
    pub use vsched::collections::{HashMap, HashSet};
    pub mod hash_map {
        pub use real_std::collections::hash_map::*;
        pub use vsched::collections::HashMap;
    }
    pub mod hash_set {
        pub use real_std::collections::hash_set::*;
        pub use vsched::collections::HashSet;
    }
}
