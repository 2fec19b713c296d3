//! Hash maps and sets that notice unsynchronised accesses and iterate in a reproducible order.
use crate::Shadow;
use std::borrow::Borrow;
use std::collections::{hash_map, hash_set};
use std::fmt;
use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher, Hash};
use std::ops::{Deref, DerefMut};

pub type FixedState = BuildHasherDefault<DefaultHasher>;

macro_rules! container {
    ($name:ident, $mod:ident, $what:literal, [$($p:ident),*]) => {
        pub struct $name<$($p,)* S = FixedState> {
            inner: std::collections::$name<$($p,)* S>,
            shadow: Shadow,
        }
        impl<$($p),*> $name<$($p),*> {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(n: usize) -> Self {
                $name { inner: std::collections::$name::with_capacity_and_hasher(n, FixedState::default()), shadow: Shadow::new() }
            }
        }
        impl<$($p,)* S> $name<$($p,)* S> {
            pub fn with_hasher(s: S) -> Self {
                $name { inner: std::collections::$name::with_hasher(s), shadow: Shadow::new() }
            }
            pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
                $name { inner: std::collections::$name::with_capacity_and_hasher(n, s), shadow: Shadow::new() }
            }
        }
        impl<$($p,)* S> Deref for $name<$($p,)* S> {
            type Target = std::collections::$name<$($p,)* S>;
            fn deref(&self) -> &Self::Target {
                self.shadow.touch(false, $what);
                &self.inner
            }
        }
        impl<$($p,)* S> DerefMut for $name<$($p,)* S> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                self.shadow.touch(true, $what);
                &mut self.inner
            }
        }
        impl<$($p,)* S: Default> Default for $name<$($p,)* S> {
            fn default() -> Self {
                $name { inner: Default::default(), shadow: Shadow::new() }
            }
        }
        impl<$($p: Clone,)* S: Clone> Clone for $name<$($p,)* S> {
            fn clone(&self) -> Self {
                $name { inner: (**self).clone(), shadow: Shadow::new() }
            }
        }
        impl<$($p: fmt::Debug,)* S> fmt::Debug for $name<$($p,)* S> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
container!(HashMap, hash_map, "hash map", [K, V]);
container!(HashSet, hash_set, "hash set", [T]);

impl<K, V, S> HashMap<K, V, S> {
    pub fn into_keys(self) -> hash_map::IntoKeys<K, V> {
        self.inner.into_keys()
    }
    pub fn into_values(self) -> hash_map::IntoValues<K, V> {
        self.inner.into_values()
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        HashMap { inner: i.into_iter().collect(), shadow: Shadow::new() }
    }
}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        HashSet { inner: i.into_iter().collect(), shadow: Shadow::new() }
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        (**self).extend(i)
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        (**self).extend(i)
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.shadow.touch(true, "hash map");
        self.inner.into_iter()
    }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = hash_set::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.shadow.touch(true, "hash set");
        self.inner.into_iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        (**self).iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        (**self).iter_mut()
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = hash_set::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        (**self).iter()
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> std::ops::Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        &(**self)[k]
    }
}
