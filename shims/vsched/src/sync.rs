//! Replacements of std::sync and once_cell::sync.
use crate::*;
use std::fmt;
use std::ops::{Deref, DerefMut};
pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

pub fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
fn wrap<G, H>(r: LockResult<G>, f: impl FnOnce(G) -> H) -> LockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(p) => Err(PoisonError::new(f(p.into_inner()))),
    }
}
fn wrap_try<G, H>(r: TryLockResult<G>, f: impl FnOnce(G) -> H) -> TryLockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(f(p.into_inner())))),
        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
}
macro_rules! lock_type {
    ($name:ident) => {
        #[derive(Default)]
        pub struct $name<T: ?Sized> {
            inner: std::sync::$name<T>,
        }
        impl<T> $name<T> {
            pub const fn new(t: T) -> Self {
                $name { inner: std::sync::$name::new(t) }
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.inner.into_inner()
            }
        }
        impl<T: ?Sized> $name<T> {
            pub fn is_poisoned(&self) -> bool {
                self.inner.is_poisoned()
            }
            pub fn clear_poison(&self) {
                self.inner.clear_poison()
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.inner.get_mut()
            }
        }
        impl<T> From<T> for $name<T> {
            fn from(t: T) -> Self {
                $name::new(t)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.inner.fmt(f)
            }
        }
    };
}
macro_rules! guard_type {
    ($name:ident, $write:expr) => {
        pub struct $name<'a, T: ?Sized + 'a> {
            inner: Option<std::sync::$name<'a, T>>,
            owner: usize,
            controlled: bool,
        }
        impl<T: ?Sized> Drop for $name<'_, T> {
            fn drop(&mut self) {
                if let Some(g) = self.inner.take() {
                    drop(g);
                    if self.controlled {
                        release(self.owner, $write);
                    }
                }
            }
        }
        impl<T: ?Sized> Deref for $name<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.inner.as_ref().unwrap()
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
lock_type!(Mutex);
lock_type!(RwLock);
guard_type!(MutexGuard, true);
guard_type!(RwLockReadGuard, false);
guard_type!(RwLockWriteGuard, true);
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
macro_rules! acquire {
    ($ty:ident, $guard:ident, $op:ident, $real:ident, $try:ident, $point:expr, $free:expr, $take:expr) => {
        impl<T: ?Sized> $ty<T> {
            pub fn $op(&self) -> LockResult<$guard<'_, T>> {
                let owner = addr(self);
                let controlled = controlled();
                let g = |g| $guard { inner: Some(g), owner, controlled };
                if controlled {
                    point($point(owner));
                    // granted by the scheduler; only a thread outside the execution can still hold it
                    match self.inner.$try() {
                        Ok(x) => return Ok(g(x)),
                        Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(g(p.into_inner()))),
                        Err(TryLockError::WouldBlock) => {}
                    }
                }
                wrap(self.inner.$op(), g)
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                let owner = addr(self);
                let controlled = controlled();
                if let Some(t) = me() {
                    point(Op::Write(owner));
                    let free: fn(&LockState) -> bool = $free;
                    let take: fn(&mut LockState, Tid) = $take;
                    let got = with(|s| {
                        let l = s.locks.entry(owner).or_default();
                        let ok = free(l);
                        if ok {
                            take(l, t);
                            let (cw, cr) = (l.cw.clone(), l.cr.clone());
                            join_clock(&mut s.threads[t].clock, &cw);
                            join_clock(&mut s.threads[t].clock, &cr);
                            mem::sync(t, &s.threads[t].clock);
                        }
                        ok
                    });
                    if !got {
                        return Err(TryLockError::WouldBlock);
                    }
                }
                let r = wrap_try(self.inner.$try(), |g| $guard { inner: Some(g), owner, controlled });
                if controlled && matches!(r, Err(TryLockError::WouldBlock)) {
                    release(owner, stringify!($real) == "w");
                }
                r
            }
        }
    };
}
acquire!(Mutex, MutexGuard, lock, w, try_lock, Op::Lock, |l| l.writer.is_none(), |l, t| l.writer = Some(t));
acquire!(RwLock, RwLockReadGuard, read, r, try_read, Op::RdLock, |l| l.writer.is_none() && l.waiting.is_empty(), |l, t| l.readers.push(t));
acquire!(RwLock, RwLockWriteGuard, write, w, try_write, Op::WrLock, |l| l.writer.is_none() && l.readers.is_empty(), |l, t| l.writer = Some(t));

/// Condition variable without spurious wake-ups.
#[derive(Default, Debug)]
pub struct Condvar {
    inner: std::sync::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { inner: std::sync::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let (owner, controlled) = (g.owner, g.controlled);
        let inner = g.inner.take().unwrap();
        let Some(t) = me() else {
            return wrap(self.inner.wait(inner), |g| MutexGuard { inner: Some(g), owner, controlled });
        };
        drop(inner);
        release(owner, true);
        let cv = addr(self);
        with(|s| s.cvs.entry(cv).or_default().push(t));
        point(Op::Cv(cv));
        // the guard was taken from this mutex
        unsafe { &*(owner as *const Mutex<T>) }.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        if controlled() {
            let cv = addr(self);
            point(Op::Write(cv));
            let n = with(|s| s.cvs.get(&cv).map_or(0, |v| v.len()));
            if n > 0 {
                let i = if n > 1 { choose(n) } else { 0 };
                with(|s| {
                    let t = s.cvs.get_mut(&cv).unwrap().remove(i);
                    s.threads[t].notified = true;
                });
            }
        } else {
            self.inner.notify_one()
        }
    }
    pub fn notify_all(&self) {
        if controlled() {
            let cv = addr(self);
            point(Op::Write(cv));
            with(|s| {
                for t in s.cvs.remove(&cv).unwrap_or_default() {
                    s.threads[t].notified = true;
                }
            });
        } else {
            self.inner.notify_all()
        }
    }
}
/// Runs `f`, which completes the cell at `o` unless it panics, while no other thread of the execution does.
pub fn initialise<R>(o: usize, done: impl Fn() -> bool, f: impl FnOnce() -> R) -> R {
    let Some(t) = me() else { return f() };
    point(Op::Once(o));
    if done() {
        return f();
    }
    with(|s| s.running.insert(o, t));
    struct End(usize, Tid);
    impl Drop for End {
        fn drop(&mut self) {
            with(|s| {
                s.running.remove(&self.0);
                s.log.push(self.0 << 2 | WRITE);
                let c = s.threads[self.1].clock.clone();
                join_clock(s.clocks.entry(self.0).or_default(), &c);
                s.tick(self.1);
            });
        }
    }
    let _e = End(o, t);
    f()
}
pub fn peek(o: usize) {
    if controlled() {
        point(Op::Read(o));
    }
}

#[derive(Debug)]
pub struct Once {
    inner: std::sync::Once,
}
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Once { inner: std::sync::Once::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        initialise(addr(self), || self.inner.is_completed(), || self.inner.call_once(f))
    }
    pub fn call_once_force<F: FnOnce(&std::sync::OnceState)>(&self, f: F) {
        initialise(addr(self), || self.inner.is_completed(), || self.inner.call_once_force(f))
    }
    pub fn is_completed(&self) -> bool {
        peek(addr(self));
        self.inner.is_completed()
    }
}
macro_rules! cell_type {
    ($name:ident, $real:path) => {
        pub struct $name<T> {
            inner: $real,
        }
        impl<T> $name<T> {
            #[allow(clippy::new_without_default)]
            pub const fn new() -> Self {
                $name { inner: <$real>::new() }
            }
            pub fn get(&self) -> Option<&T> {
                peek(addr(self));
                self.inner.get()
            }
            pub fn get_mut(&mut self) -> Option<&mut T> {
                self.inner.get_mut()
            }
            pub fn set(&self, t: T) -> Result<(), T> {
                initialise(addr(self), || false, || self.inner.set(t))
            }
            pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
                initialise(addr(self), || self.inner.get().is_some(), || self.inner.get_or_init(f))
            }
            pub fn into_inner(self) -> Option<T> {
                self.inner.into_inner()
            }
            pub fn take(&mut self) -> Option<T> {
                self.inner.take()
            }
            pub fn wait(&self) -> &T {
                loop {
                    if let Some(t) = self.get() {
                        return t;
                    }
                    if controlled() {
                        point(Op::Yield);
                    } else {
                        std::thread::yield_now();
                    }
                }
            }
        }
        impl<T> Default for $name<T> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<T: fmt::Debug> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.inner.fmt(f)
            }
        }
        impl<T: Clone> Clone for $name<T> {
            fn clone(&self) -> Self {
                peek(addr(self));
                $name { inner: self.inner.clone() }
            }
        }
        impl<T: PartialEq> PartialEq for $name<T> {
            fn eq(&self, o: &Self) -> bool {
                self.get() == o.get()
            }
        }
        impl<T: Eq> Eq for $name<T> {}
        impl<T> From<T> for $name<T> {
            fn from(t: T) -> Self {
                $name { inner: <$real>::from(t) }
            }
        }
    };
}
cell_type!(OnceLock, std::sync::OnceLock<T>);

macro_rules! lazy_type {
    ($name:ident, $cell:ident) => {
        pub struct $name<T, F = fn() -> T> {
            cell: $cell<T>,
            init: std::sync::Mutex<Option<F>>,
        }
        impl<T, F> $name<T, F> {
            pub const fn new(f: F) -> Self {
                $name { cell: $cell::new(), init: std::sync::Mutex::new(Some(f)) }
            }
        }
        impl<T, F: FnOnce() -> T> $name<T, F> {
            pub fn force(this: &Self) -> &T {
                this.cell.get_or_init(|| {
                    let f = this.init.lock().unwrap().take().expect("the lazy value was poisoned");
                    f()
                })
            }
        }
        impl<T, F: FnOnce() -> T> Deref for $name<T, F> {
            type Target = T;
            fn deref(&self) -> &T {
                Self::force(self)
            }
        }
        impl<T: Default> Default for $name<T> {
            fn default() -> Self {
                $name::new(T::default)
            }
        }
        impl<T: fmt::Debug, F> fmt::Debug for $name<T, F> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.cell.fmt(f)
            }
        }
    };
}
lazy_type!(LazyLock, OnceLock);

pub mod atomic {
    use super::*;
    pub use std::sync::atomic::{compiler_fence, Ordering};
    use std::sync::atomic as real;

    pub fn fence(o: Ordering) {
        point(Op::Local);
        real::fence(o)
    }
    macro_rules! basic {
        ($name:ident, $ty:ty $(, $g:ident)?) => {
            #[repr(transparent)]
            pub struct $name$(<$g>)? {
                inner: real::$name$(<$g>)?,
            }
            impl$(<$g>)? $name$(<$g>)? {
                pub const fn new(v: $ty) -> Self {
                    $name { inner: real::$name::new(v) }
                }
                pub fn get_mut(&mut self) -> &mut $ty {
                    self.inner.get_mut()
                }
                pub const fn into_inner(self) -> $ty {
                    self.inner.into_inner()
                }
                pub const fn as_ptr(&self) -> *mut $ty {
                    self.inner.as_ptr()
                }
                #[inline]
                pub fn load(&self, o: Ordering) -> $ty {
                    if controlled() {
                        point(Op::Read(addr(self)));
                    }
                    self.inner.load(o)
                }
                #[inline]
                fn w(&self) {
                    if controlled() {
                        point(Op::Write(addr(self)));
                    }
                }
                pub fn store(&self, v: $ty, o: Ordering) {
                    self.w();
                    self.inner.store(v, o)
                }
                pub fn swap(&self, v: $ty, o: Ordering) -> $ty {
                    self.w();
                    self.inner.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                    self.w();
                    self.inner.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                    self.w();
                    self.inner.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$ty, $ty> {
                    let mut p = self.load(f);
                    while let Some(n) = g(p) {
                        match self.compare_exchange_weak(p, n, s, f) {
                            x @ Ok(_) => return x,
                            Err(n) => p = n,
                        }
                    }
                    Err(p)
                }
            }
            impl$(<$g>)? fmt::Debug for $name$(<$g>)? {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.inner.fmt(f)
                }
            }
            impl$(<$g>)? From<$ty> for $name$(<$g>)? {
                fn from(v: $ty) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! rmw {
        ($name:ident, $ty:ty, $($f:ident)*) => {
            impl $name {
                $(pub fn $f(&self, v: $ty, o: Ordering) -> $ty {
                    self.w();
                    self.inner.$f(v, o)
                })*
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(Default::default())
                }
            }
        };
    }
    macro_rules! ints {
        ($($name:ident $ty:ty),*) => { $(
            basic!($name, $ty);
            rmw!($name, $ty, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
        )* };
    }
    ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    basic!(AtomicBool, bool);
    rmw!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
    basic!(AtomicPtr, *mut T, T);
}
