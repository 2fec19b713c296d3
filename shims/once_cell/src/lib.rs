//! once_cell whose thread-safe cells are controlled inside an execution.
pub use real::{race, unsync};

pub mod sync {
    use std::fmt;
    use std::ops::{Deref, DerefMut};
    use std::panic::RefUnwindSafe;
    use vsched::sync::{addr, initialise, peek};

    pub struct OnceCell<T>(real::sync::OnceCell<T>);
    impl<T> OnceCell<T> {
        #[allow(clippy::new_without_default)]
        pub const fn new() -> Self {
            OnceCell(real::sync::OnceCell::new())
        }
        pub const fn with_value(t: T) -> Self {
            OnceCell(real::sync::OnceCell::with_value(t))
        }
        pub fn get(&self) -> Option<&T> {
            peek(addr(self));
            self.0.get()
        }
        pub fn wait(&self) -> &T {
            loop {
                if let Some(t) = self.get() {
                    return t;
                }
                vsched::thread::yield_now();
            }
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.0.get_mut()
        }
        /// # Safety
        /// The cell is initialised.
        pub unsafe fn get_unchecked(&self) -> &T {
            peek(addr(self));
            self.0.get_unchecked()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            initialise(addr(self), || false, || self.0.set(t))
        }
        pub fn try_insert(&self, t: T) -> Result<&T, (&T, T)> {
            initialise(addr(self), || false, || self.0.try_insert(t))
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            initialise(addr(self), || self.0.get().is_some(), || self.0.get_or_init(f))
        }
        pub fn get_or_try_init<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
            initialise(addr(self), || self.0.get().is_some(), || self.0.get_or_try_init(f))
        }
        pub fn take(&mut self) -> Option<T> {
            self.0.take()
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
    }
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceCell<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: Clone> Clone for OnceCell<T> {
        fn clone(&self) -> Self {
            peek(addr(self));
            OnceCell(self.0.clone())
        }
    }
    impl<T: PartialEq> PartialEq for OnceCell<T> {
        fn eq(&self, o: &Self) -> bool {
            self.get() == o.get()
        }
    }
    impl<T: Eq> Eq for OnceCell<T> {}
    impl<T> From<T> for OnceCell<T> {
        fn from(t: T) -> Self {
            Self::with_value(t)
        }
    }

    pub struct Lazy<T, F = fn() -> T> {
        cell: OnceCell<T>,
        init: std::cell::Cell<Option<F>>,
    }
    // the initialiser is taken by whoever initialises the cell
    unsafe impl<T, F: Send> Sync for Lazy<T, F> where OnceCell<T>: Sync {}
    impl<T, F: RefUnwindSafe> RefUnwindSafe for Lazy<T, F> where OnceCell<T>: RefUnwindSafe {}
    impl<T, F> Lazy<T, F> {
        pub const fn new(f: F) -> Self {
            Lazy { cell: OnceCell::new(), init: std::cell::Cell::new(Some(f)) }
        }
        pub fn into_value(this: Lazy<T, F>) -> Result<T, F> {
            let Lazy { cell, init } = this;
            cell.into_inner().ok_or_else(|| init.take().expect("Lazy instance has previously been poisoned"))
        }
    }
    impl<T, F: FnOnce() -> T> Lazy<T, F> {
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| match this.init.take() {
                Some(f) => f(),
                None => panic!("Lazy instance has previously been poisoned"),
            })
        }
        pub fn force_mut(this: &mut Self) -> &mut T {
            Self::force(this);
            Self::get_mut(this).unwrap()
        }
        pub fn get(this: &Self) -> Option<&T> {
            this.cell.get()
        }
        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            this.cell.get_mut()
        }
    }
    impl<T, F: FnOnce() -> T> Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
    impl<T, F: FnOnce() -> T> DerefMut for Lazy<T, F> {
        fn deref_mut(&mut self) -> &mut T {
            Self::force_mut(self)
        }
    }
    impl<T: Default> Default for Lazy<T> {
        fn default() -> Self {
            Lazy::new(T::default)
        }
    }
    impl<T: fmt::Debug, F> fmt::Debug for Lazy<T, F> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.cell.fmt(f)
        }
    }
}
