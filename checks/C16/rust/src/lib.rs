//! Contracts of the interner: two interned values are equal exactly if the
//! values are, whatever was interned before, between and after.
#![feature(prelude_import)]
#![no_std]
#[macro_use]
extern crate stdshim as std;
#[prelude_import]
#[allow(unused)]
use std::prelude::rust_2024::*;

#[path = "@REPO@/common/interner.rs"]
pub mod interner;

#[cfg(kani)]
mod harness {
    use super::interner::*;
    use bumpalo::Bump;
    use core::cmp::Ordering;
    use core::hash::{Hash, Hasher};
    use core::ptr;

    /// The sequence of numbers that is hashed.
    struct Trace([u64; 4], usize);
    impl Hasher for Trace {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
        fn write_u64(&mut self, x: u64) { assert!(self.1 < 4); self.0[self.1] = x; self.1 += 1; }
        fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    }
    fn hash<T: Hash>(t: &T) -> Trace { let mut h = Trace([0; 4], 0); t.hash(&mut h); h }

    fn same_hash(a: Trace, b: Trace) -> bool { a.1 == b.1 && a.0[0] == b.0[0] && a.0[1] == b.0[1] && a.0[2] == b.0[2] && a.0[3] == b.0[3] }

    /// What equality, order and hash owe each other, given whether the values are equal.
    fn agree<T: ?Sized>(a: Interned<'_, T>, b: Interned<'_, T>, same: bool) {
        assert!((a == b) == same, "interned values are equal exactly if the values are");
        assert!((a != b) != same, "and different exactly if the values are");
        assert!((a.cmp(&b) == Ordering::Equal) == same, "the order agrees with equality");
        assert!(a.cmp(&b) == b.cmp(&a).reverse(), "the order is antisymmetric");
        assert!(a.partial_cmp(&b) == Some(a.cmp(&b)), "the order is total");
        if same { assert!(same_hash(hash(&a), hash(&b)), "equal interned values hash equally"); }
        assert!(a == a && a.cmp(&a) == Ordering::Equal, "reflexive");
    }

    fn values<T: Copy + Eq + Hash + kani::Arbitrary>() {
        let bump = Bump::new();
        let i = Interner::<T>::new(&bump);
        let (x, y, z): (T, T, T) = kani::any();
        let a = i.intern(x);
        let b = i.intern(y);
        let c = i.intern(z);
        agree(a, b, x == y);
        agree(b, c, y == z);
        agree(a, c, x == z);
        assert!(*a.inner() == x && *b.inner() == y && *c.inner() == z, "the interned value is the value");
        assert!(**a == x, "dereferencing denotes the value");
        assert!(x != y || ptr::eq(a.inner(), b.inner()), "equal values are stored once");
        let a2 = i.intern(x);
        assert!(ptr::eq(a2.inner(), a.inner()), "interning again finds the stored value");
        if a.cmp(&b) == Ordering::Less && b.cmp(&c) == Ordering::Less { assert!(a.cmp(&c) == Ordering::Less, "the order is transitive"); }
        kani::cover!(x == y, "MUST: equal");
        kani::cover!(x != y && y != z && x != z, "MUST: three values");
        core::mem::forget(bump);
    }
    #[kani::proof] #[kani::unwind(6)] fn values_u32() { values::<u32>() }
    #[kani::proof] #[kani::unwind(6)] fn values_pair() { values::<(u8, u64)>() }

    const MAX: usize = 2;
    fn any_slice<const L: usize>(a: &[u16; L]) -> &[u16] { let n: usize = kani::any(); kani::assume(n <= L); &a[..n] }

    #[kani::proof] #[kani::unwind(6)]
    fn b_slices() {
        let bump = Bump::new();
        let i = Interner::<[u16]>::new(&bump);
        let (xa, ya): ([u16; MAX], [u16; MAX]) = kani::any();
        let x = any_slice(&xa);
        let y = any_slice(&ya);
        let a = i.intern_slice(x);
        let b = i.intern_slice(y);
        agree(a, b, x == y);
        assert!(*a.inner() == *x && *b.inner() == *y, "the interned value is the value");
        assert!(!ptr::eq(a.inner().as_ptr(), x.as_ptr()) || x.is_empty(), "a copy is stored");
        let a2 = i.intern_slice(x);
        assert!(ptr::eq(a2.inner(), a.inner()) && a2 == a, "interning again finds the stored value");
        kani::cover!(x.is_empty() && !y.is_empty(), "MUST: empty first");
        kani::cover!(!x.is_empty() && y.is_empty(), "MUST: empty last");
        kani::cover!(x.len() == 2 && x == y, "MUST: equal");
        core::mem::forget(bump);
    }

    #[kani::proof] #[kani::unwind(6)]
    fn b_strings() {
        let bump = Bump::new();
        let i = Interner::<str>::new(&bump);
        let (mut xa, mut ya): ([u8; MAX], [u8; MAX]) = kani::any();
        for k in 0..MAX { xa[k] &= 0x7F; ya[k] &= 0x7F; }
        let (n, m): (usize, usize) = kani::any();
        kani::assume(n <= MAX && m <= MAX);
        let x = unsafe { core::str::from_utf8_unchecked(&xa[..n]) };
        let y = unsafe { core::str::from_utf8_unchecked(&ya[..m]) };
        let a = i.intern_str(x);
        let b = i.intern_str(y);
        agree(a, b, x == y);
        assert!(a.inner() == x && b.inner() == y, "the interned value is the value");
        let a2 = i.intern_str(x);
        assert!(ptr::eq(a2.inner(), a.inner()) && a2 == a, "interning again finds the stored value");
        kani::cover!(!x.is_empty() && y.is_empty(), "MUST: empty last");
        kani::cover!(x.len() == 2 && x == y, "MUST: equal");
        core::mem::forget(bump);
    }

    /// Copies of an interned value are that value.
    #[kani::proof] #[kani::unwind(6)]
    fn copies() {
        let x: u32 = kani::any();
        let bump = Bump::new();
        let i = Interner::<u32>::new(&bump);
        let a = i.intern(x);
        let b = a;
        let c = a.clone();
        agree(a, b, true);
        agree(a, c, true);
        core::mem::forget(bump);
    }
}
