//! A set or map of registered addresses is gone through in the order given; everything else has some fixed order.
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections as real;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut};

thread_local! {
    static ORDER: RefCell<Vec<(u64, u64)>> = const { RefCell::new(vec![]) };
}
/// This thread goes through the addresses in this order from now on.
pub fn order(addresses: &[usize]) {
    ORDER.with(|o| *o.borrow_mut() = addresses.iter().enumerate().map(|(i, a)| (*a as u64, i as u64)).collect())
}
/// What an object puts into a hash.
pub fn place<T: Hash>(t: &T) -> usize {
    let mut h = OurHasher::default();
    t.hash(&mut h);
    h.one as usize
}

#[derive(Clone, Copy, Default, Debug)]
pub struct OurState;
#[derive(Clone, Default)]
pub struct OurHasher {
    all: u64,
    one: u64,
    n: u32,
}
impl BuildHasher for OurState {
    type Hasher = OurHasher;
    fn build_hasher(&self) -> OurHasher {
        OurHasher::default()
    }
}
impl Hasher for OurHasher {
    fn write(&mut self, b: &[u8]) {
        self.n += 1;
        if b.len() == 8 && self.n == 1 {
            self.one = u64::from_ne_bytes(b.try_into().unwrap());
        }
        for x in b {
            self.all = (self.all ^ *x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(17);
        }
    }
    fn finish(&self) -> u64 {
        if self.n == 1 {
            if let Some(i) = ORDER.with(|o| o.borrow().iter().find(|(a, _)| *a == self.one).map(|(_, i)| *i)) {
                return i;
            }
        }
        self.all ^ (self.all << 57)
    }
}

macro_rules! table {
    ($n:ident < $($p:ident),* >) => {
        impl<$($p),*> $n<$($p),*> {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(n: usize) -> Self {
                $n(real::$n::with_capacity_and_hasher(n, OurState))
            }
        }
        impl<$($p),*, S> $n<$($p),*, S> {
            pub fn with_hasher(s: S) -> Self {
                $n(real::$n::with_hasher(s))
            }
            pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
                $n(real::$n::with_capacity_and_hasher(n, s))
            }
        }
        impl<$($p),*, S: Default> Default for $n<$($p),*, S> {
            fn default() -> Self {
                $n(Default::default())
            }
        }
        impl<$($p),*, S> Deref for $n<$($p),*, S> {
            type Target = real::$n<$($p),*, S>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<$($p),*, S> DerefMut for $n<$($p),*, S> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl<$($p: fmt::Debug),*, S> fmt::Debug for $n<$($p),*, S> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<$($p: Clone),*, S: Clone> Clone for $n<$($p),*, S> {
            fn clone(&self) -> Self {
                $n(self.0.clone())
            }
        }
        impl<$($p),*, S> IntoIterator for $n<$($p),*, S> {
            type Item = <real::$n<$($p),*, S> as IntoIterator>::Item;
            type IntoIter = <real::$n<$($p),*, S> as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl<'a, $($p),*, S> IntoIterator for &'a $n<$($p),*, S> {
            type Item = <&'a real::$n<$($p),*, S> as IntoIterator>::Item;
            type IntoIter = <&'a real::$n<$($p),*, S> as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter {
                (&self.0).into_iter()
            }
        }
    };
}

pub struct HashSet<T, S = OurState>(real::HashSet<T, S>);
pub struct HashMap<K, V, S = OurState>(real::HashMap<K, V, S>);
table!(HashSet<T>);
table!(HashMap<K, V>);

impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        HashSet(i.into_iter().collect())
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}

impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        HashMap(i.into_iter().collect())
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = real::hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> std::ops::Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, q: &Q) -> &V {
        &self.0[q]
    }
}
