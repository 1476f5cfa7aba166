//! `std` with the hash tables replaced by association lists that have the same
//! contract and iterate in an arbitrary order (chosen by the verifier). Code
//! under contract is compiled unmodified, with this crate in the place of `std`.
#![allow(ambiguous_glob_reexports)]
#![feature(dropck_eyepatch)]
extern crate std as real;
pub use ::real::*;

/// The prelude, with the vector below.
#[cfg(feature = "shim_vec")]
pub mod bounded_prelude {
    pub use ::real::prelude::rust_2024::*;
    pub use crate::vec::Vec;
}

/// Variables of the only thread there is.
pub struct LocalKey<T: 'static> { made: core::cell::Cell<bool>, t: core::cell::UnsafeCell<core::mem::MaybeUninit<T>>, init: fn() -> T }
unsafe impl<T> Sync for LocalKey<T> {}
impl<T> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self { LocalKey { made: core::cell::Cell::new(false), t: core::cell::UnsafeCell::new(core::mem::MaybeUninit::uninit()), init } }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        if !self.made.get() {
            let t = (self.init)();
            unsafe { (*self.t.get()).write(t); }
            self.made.set(true);
        }
        f(unsafe { (*self.t.get()).assume_init_ref() })
    }
}
#[macro_export]
macro_rules! thread_local {
    ($($(#[$m:meta])* $v:vis static $n:ident : $t:ty = $e:expr);* $(;)?) => { $( $(#[$m])* $v static $n: $crate::LocalKey<$t> = $crate::LocalKey::new(|| $e); )* }
}

#[cfg(feature = "shim_vec")]
#[macro_export]
macro_rules! vec {
    () => { $crate::vec::Vec::new() };
    ($($e:expr),+ $(,)?) => {{ let mut v = $crate::vec::Vec::new(); $( v.push($e); )+ v }};
}
#[cfg(not(feature = "shim_vec"))]
pub mod vec { pub use ::real::vec::*; }
/// A vector in a fixed array.
#[cfg(feature = "shim_vec")]
pub mod vec {
    use core::mem::MaybeUninit;
    pub const CAP: usize = crate::collections::hash_map::CAP;
    pub struct Vec<T> { a: [MaybeUninit<T>; CAP], n: usize }
    impl<T> Default for Vec<T> { fn default() -> Self { Self::new() } }
    impl<T> Vec<T> {
        pub const fn new() -> Self { Vec { a: [const { MaybeUninit::uninit() }; CAP], n: 0 } }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
        pub fn push(&mut self, t: T) {
            assert!(self.n < CAP, "BOUND: the vector of the verifier is full");
            self.a[self.n] = MaybeUninit::new(t);
            self.n += 1;
        }
        pub fn pop(&mut self) -> Option<T> {
            if self.n == 0 { return None; }
            self.n -= 1;
            Some(unsafe { self.a[self.n].assume_init_read() })
        }
        pub fn len(&self) -> usize { self.n }
        pub fn is_empty(&self) -> bool { self.n == 0 }
        pub fn swap_remove(&mut self, i: usize) -> T {
            assert!(i < self.n);
            self.n -= 1;
            let t = unsafe { self.a[i].assume_init_read() };
            if i != self.n { self.a[i] = MaybeUninit::new(unsafe { self.a[self.n].assume_init_read() }); }
            t
        }
        pub fn reserve(&mut self, _: usize) {}
        pub fn clear(&mut self) { while self.pop().is_some() {} }
        pub fn as_slice(&self) -> &[T] { self }
        /// A stable sort.
        pub fn sort_by(&mut self, mut f: impl FnMut(&T, &T) -> core::cmp::Ordering) {
            let mut i = 1;
            while i < self.n {
                let mut j = i;
                while j > 0 && f(&self[j - 1], &self[j]) == core::cmp::Ordering::Greater { self.a.swap(j - 1, j); j -= 1; }
                i += 1;
            }
        }
        pub fn resize_with(&mut self, n: usize, mut f: impl FnMut() -> T) {
            while self.n > n { self.pop(); }
            while self.n < n { self.push(f()); }
        }
        pub fn insert(&mut self, i: usize, t: T) {
            assert!(i <= self.n);
            self.push(t);
            let mut j = self.n - 1;
            while j > i { self.a.swap(j - 1, j); j -= 1; }
        }
        pub fn remove(&mut self, i: usize) -> T {
            assert!(i < self.n);
            let mut j = i;
            while j + 1 < self.n { self.a.swap(j, j + 1); j += 1; }
            self.pop().unwrap()
        }
        pub fn truncate(&mut self, n: usize) { while self.n > n { self.pop(); } }
        pub fn sort(&mut self) where T: Ord { self.sort_by(T::cmp) }
        pub fn sort_by_key<K: Ord>(&mut self, mut f: impl FnMut(&T) -> K) { self.sort_by(|a, b| f(a).cmp(&f(b))) }
        pub fn sort_unstable_by(&mut self, f: impl FnMut(&T, &T) -> core::cmp::Ordering) { self.sort_by(f) }
    }
    unsafe impl<#[may_dangle] T> Drop for Vec<T> { fn drop(&mut self) { self.clear() } }
    impl<T> core::ops::Deref for Vec<T> { type Target = [T]; fn deref(&self) -> &[T] { unsafe { core::slice::from_raw_parts(self.a.as_ptr().cast(), self.n) } } }
    impl<T> core::ops::DerefMut for Vec<T> { fn deref_mut(&mut self) -> &mut [T] { unsafe { core::slice::from_raw_parts_mut(self.a.as_mut_ptr().cast(), self.n) } } }
    pub struct IntoIter<T> { v: Vec<T>, i: usize }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            if self.i == self.v.n { return None; }
            self.i += 1;
            Some(unsafe { self.v.a[self.i - 1].assume_init_read() })
        }
    }
    unsafe impl<#[may_dangle] T> Drop for IntoIter<T> { fn drop(&mut self) { while self.next().is_some() {} self.v.n = 0; } }
    impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { v: self, i: 0 } } }
    impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = core::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
    impl<T> Extend<T> for Vec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, t: I) { for x in t { self.push(x); } } }
    impl<T> FromIterator<T> for Vec<T> { fn from_iter<I: IntoIterator<Item = T>>(t: I) -> Self { let mut m = Self::new(); m.extend(t); m } }
    impl<T: Clone> Clone for Vec<T> { fn clone(&self) -> Self { self.iter().cloned().collect() } }
    impl<T: core::fmt::Debug> core::fmt::Debug for Vec<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { (**self).fmt(f) } }
    impl<T: PartialEq> PartialEq for Vec<T> { fn eq(&self, o: &Self) -> bool { **self == **o } }
}

pub mod collections {
    pub use ::real::collections::*;
    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;
    #[cfg(feature = "shim_vec")]
    pub use self::binary_heap::BinaryHeap;
    /// A priority queue without a heap.
    pub mod binary_heap {
        use crate::{collections::hash_map::CAP, vec::Vec};
        pub struct BinaryHeap<T> { a: [Option<T>; CAP], n: usize }
        impl<T: Ord> Default for BinaryHeap<T> { fn default() -> Self { BinaryHeap { a: [const { None }; CAP], n: 0 } } }
        impl<T: Ord> BinaryHeap<T> {
            pub fn new() -> Self { Self::default() }
            pub fn with_capacity(_: usize) -> Self { Self::default() }
            pub fn len(&self) -> usize { self.n }
            pub fn is_empty(&self) -> bool { self.n == 0 }
            pub fn clear(&mut self) { while self.pop().is_some() {} }
            pub fn push(&mut self, t: T) {
                assert!(self.n < CAP, "BOUND: the heap of the verifier is full");
                self.a[self.n] = Some(t);
                self.n += 1;
            }
            fn best(&self) -> usize {
                let mut b = 0;
                let mut i = 1;
                while i < self.n {
                    match (&self.a[i], &self.a[b]) { (Some(x), Some(y)) => if x.cmp(y) == core::cmp::Ordering::Greater { b = i; }, _ => {} }
                    i += 1;
                }
                b
            }
            pub fn pop(&mut self) -> Option<T> {
                if self.n == 0 { return None; }
                let b = self.best();
                self.n -= 1;
                let t = self.a[b].take();
                if b != self.n { self.a[b] = self.a[self.n].take(); }
                t
            }
            pub fn peek(&self) -> Option<&T> { if self.n == 0 { return None; } self.a[self.best()].as_ref() }
            pub fn into_vec(mut self) -> Vec<T> { let mut v = Vec::new(); let mut i = 0; while i < self.n { v.extend(self.a[i].take()); i += 1; } v }
            pub fn into_sorted_vec(mut self) -> Vec<T> { let mut v = Vec::new(); while let Some(x) = self.pop() { v.insert(0, x); } v }
            pub fn iter(&self) -> impl Iterator<Item = &T> { self.a.iter().filter_map(|x| x.as_ref()) }
        }
        impl<T: Ord> Extend<T> for BinaryHeap<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, t: I) { for x in t { self.push(x); } } }
        impl<T: Ord> FromIterator<T> for BinaryHeap<T> { fn from_iter<I: IntoIterator<Item = T>>(t: I) -> Self { let mut m = Self::default(); m.extend(t); m } }
        impl<T: Ord> From<Vec<T>> for BinaryHeap<T> { fn from(v: Vec<T>) -> Self { v.into_iter().collect() } }
    }

    pub mod hash_map {
        use core::borrow::Borrow;
        use core::hash::Hash;
        use core::marker::PhantomData;
        pub use ::real::collections::hash_map::{DefaultHasher, RandomState};
        /// Tables of up to this many entries.
        pub const CAP: usize = if cfg!(feature = "cap3") { 3 } else if cfg!(feature = "cap4") { 4 } else { 6 };

        pub struct HashMap<K, V, S = RandomState> { slots: [Option<(K, V)>; CAP], n: usize, s: PhantomData<S> }
        /// With `fixed_order`: fill the table from the other end.
        pub static mut REVERSED: bool = false;
        fn pick<K, V>(slots: &[Option<(K, V)>; CAP]) -> usize {
            #[cfg(all(kani, not(feature = "fixed_order")))]
            { let i: usize = kani::any(); kani::assume(i < CAP && slots[i].is_none()); i }
            #[cfg(any(not(kani), feature = "fixed_order"))]
            {
                if unsafe { REVERSED } { let mut i = CAP - 1; while slots[i].is_some() { i -= 1; } i }
                else { let mut i = 0; while slots[i].is_some() { i += 1; } i }
            }
        }
        impl<K, V> HashMap<K, V> {
            pub fn new() -> Self { Self::default() }
            pub fn with_capacity(_: usize) -> Self { Self::default() }
        }
        impl<K, V, S> Default for HashMap<K, V, S> {
            fn default() -> Self { HashMap { slots: [const { None }; CAP], n: 0, s: PhantomData } }
        }
        impl<K, V, S> HashMap<K, V, S> {
            pub fn len(&self) -> usize { self.n }
            pub fn is_empty(&self) -> bool { self.n == 0 }
            pub fn iter(&self) -> Iter<'_, K, V> { Iter { i: self.slots.iter() } }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { i: self.slots.iter_mut() } }
            pub fn keys(&self) -> impl Iterator<Item = &K> { self.iter().map(|(k, _)| k) }
            pub fn values(&self) -> impl Iterator<Item = &V> { self.iter().map(|(_, v)| v) }
            pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.iter_mut().map(|(_, v)| v) }
            pub fn into_keys(self) -> impl Iterator<Item = K> { self.into_iter().map(|(k, _)| k) }
            pub fn into_values(self) -> impl Iterator<Item = V> { self.into_iter().map(|(_, v)| v) }
            pub fn clear(&mut self) { let mut i = 0; while i < CAP { self.slots[i] = None; i += 1; } self.n = 0; }
            pub fn drain(&mut self) -> IntoIter<K, V> { self.n = 0; IntoIter { i: core::mem::replace(&mut self.slots, [const { None }; CAP]).into_iter() } }
        }
        impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
            fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
                let mut i = 0;
                while i < CAP {
                    if let Some((x, _)) = &self.slots[i] { if x.borrow() == k { return Some(i); } }
                    i += 1;
                }
                None
            }
            fn vacant(&mut self) -> usize {
                assert!(self.n < CAP, "BOUND: the table of the verifier is full");
                pick(&self.slots)
            }
            pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { let i = self.find(k)?; self.slots[i].as_ref().map(|(_, v)| v) }
            pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { let i = self.find(k)?; self.slots[i].as_ref().map(|(k, v)| (k, v)) }
            pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { let i = self.find(k)?; self.slots[i].as_mut().map(|(_, v)| v) }
            pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                if let Some(i) = self.find(&k) { return self.slots[i].as_mut().map(|(_, o)| core::mem::replace(o, v)); }
                let i = self.vacant();
                self.slots[i] = Some((k, v));
                self.n += 1;
                None
            }
            pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove_entry(k).map(|(_, v)| v) }
            pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
                let i = self.find(k)?;
                self.n -= 1;
                self.slots[i].take()
            }
            pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
                let mut i = 0;
                while i < CAP {
                    let keep = match &mut self.slots[i] { Some((k, v)) => f(k, v), None => true };
                    if !keep { self.slots[i] = None; self.n -= 1; }
                    i += 1;
                }
            }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
                match self.find(&k) {
                    Some(i) => Entry::Occupied(OccupiedEntry { slot: &mut self.slots[i], n: &mut self.n }),
                    None => { let i = self.vacant(); Entry::Vacant(VacantEntry { k, slot: &mut self.slots[i], n: &mut self.n }) }
                }
            }
            pub fn reserve(&mut self, _: usize) {}
        }
        pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
        pub struct OccupiedEntry<'a, K, V> { slot: &'a mut Option<(K, V)>, n: &'a mut usize }
        pub struct VacantEntry<'a, K, V> { k: K, slot: &'a mut Option<(K, V)>, n: &'a mut usize }
        impl<'a, K, V> OccupiedEntry<'a, K, V> {
            pub fn key(&self) -> &K { &self.slot.as_ref().unwrap().0 }
            pub fn get(&self) -> &V { &self.slot.as_ref().unwrap().1 }
            pub fn get_mut(&mut self) -> &mut V { &mut self.slot.as_mut().unwrap().1 }
            pub fn into_mut(self) -> &'a mut V { &mut self.slot.as_mut().unwrap().1 }
            pub fn insert(&mut self, v: V) -> V { core::mem::replace(self.get_mut(), v) }
            pub fn remove(self) -> V { *self.n -= 1; self.slot.take().unwrap().1 }
            pub fn remove_entry(self) -> (K, V) { *self.n -= 1; self.slot.take().unwrap() }
        }
        impl<'a, K, V> VacantEntry<'a, K, V> {
            pub fn key(&self) -> &K { &self.k }
            pub fn into_key(self) -> K { self.k }
            pub fn insert(self, v: V) -> &'a mut V { *self.n += 1; *self.slot = Some((self.k, v)); &mut self.slot.as_mut().unwrap().1 }
        }
        impl<'a, K, V> Entry<'a, K, V> {
            pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
            pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
            pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
            pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
            pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
        }
        pub struct Iter<'a, K, V> { i: core::slice::Iter<'a, Option<(K, V)>> }
        impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { loop { if let Some((k, v)) = self.i.next()? { return Some((k, v)); } } } }
        pub struct IterMut<'a, K, V> { i: core::slice::IterMut<'a, Option<(K, V)>> }
        impl<'a, K, V> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); fn next(&mut self) -> Option<Self::Item> { loop { if let Some((k, v)) = self.i.next()? { return Some((k, v)); } } } }
        pub struct IntoIter<K, V> { i: core::array::IntoIter<Option<(K, V)>, CAP> }
        impl<K, V> Iterator for IntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<Self::Item> { loop { if let Some(kv) = self.i.next()? { return Some(kv); } } } }
        impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { IntoIter { i: self.slots.into_iter() } } }
        impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
        impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
        impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, t: T) { for (k, v) in t { self.insert(k, v); } } }
        impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<T: IntoIterator<Item = (K, V)>>(t: T) -> Self { let mut m = Self::default(); m.extend(t); m } }
        impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
        impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> core::ops::Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
        impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { slots: self.slots.clone(), n: self.n, s: PhantomData } } }
        impl<K: core::fmt::Debug, V: core::fmt::Debug, S> core::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.debug_map().entries(self.iter()).finish() } }
        impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.n == o.n && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v == w)) } }
    }
    pub mod hash_set {
        use super::hash_map::HashMap;
        use core::borrow::Borrow;
        use core::hash::Hash;
        pub struct HashSet<T> { m: HashMap<T, ()> }
        impl<T> Default for HashSet<T> { fn default() -> Self { HashSet { m: HashMap::default() } } }
        impl<T> HashSet<T> {
            pub fn new() -> Self { Self::default() }
            pub fn with_capacity(_: usize) -> Self { Self::default() }
            pub fn len(&self) -> usize { self.m.len() }
            pub fn is_empty(&self) -> bool { self.m.is_empty() }
            pub fn iter(&self) -> impl Iterator<Item = &T> { self.m.keys() }
            pub fn clear(&mut self) { self.m.clear() }
        }
        impl<T: Eq + Hash> HashSet<T> {
            pub fn insert(&mut self, t: T) -> bool { if self.m.contains_key(&t) { false } else { self.m.insert(t, ()); true } }
            pub fn contains<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(t) }
            pub fn get<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> Option<&T> where T: Borrow<Q> { self.m.get_key_value(t).map(|(k, _)| k) }
            pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, t: &Q) -> bool where T: Borrow<Q> { self.m.remove(t).is_some() }
            pub fn take<Q: ?Sized + Eq + Hash>(&mut self, t: &Q) -> Option<T> where T: Borrow<Q> { self.m.remove_entry(t).map(|(k, _)| k) }
            pub fn replace(&mut self, t: T) -> Option<T> { let o = self.take(&t); self.m.insert(t, ()); o }
        }
        impl<T> IntoIterator for HashSet<T> { type Item = T; type IntoIter = core::iter::Map<super::hash_map::IntoIter<T, ()>, fn((T, ())) -> T>; fn into_iter(self) -> Self::IntoIter { fn k<T>(x: (T, ())) -> T { x.0 } self.m.into_iter().map(k as fn((T, ())) -> T) } }
        impl<T: Eq + Hash> Extend<T> for HashSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, t: I) { for x in t { self.insert(x); } } }
        impl<T: Eq + Hash> FromIterator<T> for HashSet<T> { fn from_iter<I: IntoIterator<Item = T>>(t: I) -> Self { let mut m = Self::default(); m.extend(t); m } }
        impl<T: Clone> Clone for HashSet<T> { fn clone(&self) -> Self { HashSet { m: self.m.clone() } } }
        impl<T: core::fmt::Debug> core::fmt::Debug for HashSet<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    }
}
