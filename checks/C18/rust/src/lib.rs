//! Contracts of C++'s vector in Rust: every operation does to the C++ storage what
//! the operation of the same name does to a Vec, and leaves a vector that C++ can
//! use and free.
#![feature(allocator_api, negative_impls)]
#![allow(unused)]

#[cfg(kani)]
mod model {
    use cc_std::crubit_cc_std_internal::std_allocator::*;
    use cc_std::{ledger, std::*};
    use core::mem::{ManuallyDrop, MaybeUninit};

    pub static mut LIVE: (i32, u64) = (0, 0x5EED0012);
    pub fn live() -> i32 { unsafe { LIVE.0 } }
    /// An element that accounts for itself.
    #[derive(Debug)]
    pub struct Obj { pub v: u8, alive: u8 }
    impl Obj {
        pub fn new(v: u8) -> Obj { unsafe { LIVE.0 += 1; } Obj { v, alive: 1 } }
        pub fn ok(&self) -> bool { self.alive == 1 }
    }
    impl Clone for Obj { fn clone(&self) -> Obj { assert!(self.alive == 1); Obj::new(self.v) } }
    impl Drop for Obj { fn drop(&mut self) { assert!(self.alive == 1, "an element is destroyed once"); self.alive = 0; unsafe { LIVE.0 -= 1; } } }
    impl PartialEq for Obj { fn eq(&self, o: &Obj) -> bool { self.v == o.v } }
    impl PartialEq<u8> for Obj { fn eq(&self, o: &u8) -> bool { self.v == *o } }

    /// Elements: made of a number, and read as one.
    pub trait Elem: Unpin { fn of(v: u8) -> Self; fn get(&self) -> u8; const COUNTED: bool; }
    impl Elem for Obj { fn of(v: u8) -> Obj { Obj::new(v) } fn get(&self) -> u8 { assert!(self.ok()); self.v } const COUNTED: bool = true; }
    impl Elem for u8 { fn of(v: u8) -> u8 { v } fn get(&self) -> u8 { *self } const COUNTED: bool = false; }
    #[repr(align(32))] #[derive(Clone)] pub struct Wide(pub u8);
    impl Elem for Wide { fn of(v: u8) -> Wide { Wide(v) } fn get(&self) -> u8 { self.0 } const COUNTED: bool = false; }

    /// The vector as C++ sees it.
    #[cfg(not(feature = "len_capacity_encoding"))]
    pub mod raw {
        use super::*;
        #[repr(C)] pub struct Raw<T> { begin: *const T, end: *const T, cap: *const T }
        pub fn get<T>(v: &vector<T>) -> (*const T, usize, usize) {
            let r: Raw<T> = unsafe { core::mem::transmute_copy(v) };
            if r.begin.is_null() { assert!(r.end.is_null() && r.cap.is_null(), "an unallocated vector is all null"); return (r.begin, 0, 0); }
            let (b, e, c) = (r.begin as usize, r.end as usize, r.cap as usize);
            assert!(b <= e && e <= c && (e - b) % size_of::<T>() == 0 && (c - b) % size_of::<T>() == 0);
            (r.begin, (e - b) / size_of::<T>(), (c - b) / size_of::<T>())
        }
        pub fn set<T>(p: *const T, n: usize, c: usize) -> vector<T> {
            let r = if p.is_null() { Raw { begin: p, end: p, cap: p } } else { Raw { begin: p, end: unsafe { p.add(n) }, cap: unsafe { p.add(c) } } };
            let r = ManuallyDrop::new(r);
            unsafe { core::mem::transmute_copy(&r) }
        }
    }
    #[cfg(feature = "len_capacity_encoding")]
    pub mod raw {
        use super::*;
        #[repr(C)] pub struct Raw<T> { begin: *const T, len: usize, cap: usize }
        pub fn get<T>(v: &vector<T>) -> (*const T, usize, usize) {
            let r: Raw<T> = unsafe { core::mem::transmute_copy(v) };
            assert!(r.len <= r.cap && r.begin.is_null() == (r.cap == 0), "an unallocated vector is all null");
            (r.begin, r.len, r.cap)
        }
        pub fn set<T>(p: *const T, n: usize, c: usize) -> vector<T> { let r = ManuallyDrop::new(Raw { begin: p, len: n, cap: c }); unsafe { core::mem::transmute_copy(&r) } }
    }
    /// A vector that C++ has made: these elements, and room for C in all.
    pub fn cpp<T: Elem, const N: usize>(x: &[u8; N], c: usize) -> vector<T> {
        if c == 0 { return raw::set(core::ptr::null(), 0, 0); }
        let p = cpp_new(c * size_of::<T>(), align_of::<T>()) as *mut T;
        let mut i = 0;
        while i < N { unsafe { p.add(i).write(T::of(x[i])); } i += 1; }
        ledger::poisoned_after(p as *const u8, N * size_of::<T>());
        raw::set(p, N, c)
    }
    /// C++ can use and free this vector, and it holds these elements.
    pub fn holds<T: Elem>(v: &vector<T>, x: &[u8]) {
        let (p, n, c) = raw::get(v);
        assert!(n == x.len(), "the vector has as many elements as a Vec would have");
        assert!(c >= n && p.is_null() == (c == 0));
        if !p.is_null() {
            assert!(ledger::block(p as *const u8) == Some((c * size_of::<T>(), align_of::<T>())), "its memory is one block of C++'s operator new, of the size of its capacity");
            ledger::check_tail(p as *const u8, n * size_of::<T>());
        }
        let mut i = 0;
        while i < x.len() { assert!(unsafe { &*p.add(i) }.get() == x[i], "and the same elements, in order"); i += 1; }
        assert!(v.len() == n && v.capacity() == c && v.is_empty() == (n == 0) && v.as_ptr() == p);
    }
    /// All elements and blocks are gone except for these.
    pub fn left<T: Elem>(elements: usize, blocks: usize) {
        if T::COUNTED { assert!(live() == elements as i32, "no element is lost, copied or destroyed twice"); }
        assert!(ledger::live() == blocks, "no memory is lost");
    }
    pub fn bytes<const N: usize>() -> [u8; N] { let mut a = [0; N]; let mut i = 0; while i < N { a[i] = kani::any(); i += 1; } a }
}

#[cfg(kani)]
mod ops {
    use super::model::*;
    use cc_std::crubit_cc_std_internal::std_allocator::StdAllocator;
    use cc_std::{ledger, std::*};

    /// One operation on a vector of two elements with and without room, and on an
    /// empty one with and without memory. The operation returns the elements that
    /// the vector has to hold then; elements it lets go of are dropped by it.
    macro_rules! op {
        ($($n:ident <$t:ty> $v:ident, $x:ident, $after:ident: $b:block;)*) => { $(
            mod $n {
                use super::*;
                fn run<const N: usize>($x: [u8; N], c: usize) {
                    let mut $v: vector<$t> = cpp(&$x, c);
                    let mut $after = List::new(&$x);
                    $b
                    holds(&$v, $after.get());
                    left::<$t>($after.get().len(), ($v.capacity() > 0) as usize);
                    drop($v);
                    left::<$t>(0, 0);
                }
                #[kani::proof] #[kani::unwind(10)] fn b_states() { run(bytes::<0>(), 0); run(bytes::<0>(), 2); run(bytes::<2>(), 2); run(bytes::<2>(), 4); }
            }
        )* };
    }
    /// What a Vec would hold.
    pub struct List { a: [u8; 8], n: usize }
    impl List {
        fn new(x: &[u8]) -> List { let mut a = [0; 8]; let mut i = 0; while i < x.len() { a[i] = x[i]; i += 1; } List { a, n: x.len() } }
        fn get(&self) -> &[u8] { &self.a[..self.n] }
        fn push(&mut self, x: u8) { self.a[self.n] = x; self.n += 1; }
        fn insert(&mut self, at: usize, x: u8) { let mut i = self.n; while i > at { self.a[i] = self.a[i - 1]; i -= 1; } self.a[at] = x; self.n += 1; }
        fn remove(&mut self, at: usize) -> u8 { let r = self.a[at]; let mut i = at; while i + 1 < self.n { self.a[i] = self.a[i + 1]; i += 1; } self.n -= 1; r }
    }
    op! {
        nothing<Obj> v, x, after: {};
        nothing_wide<Wide> v, x, after: {};
        push<Obj> v, x, after: { let y = kani::any(); v.push(Obj::of(y)); after.push(y); };
        push_wide<Wide> v, x, after: { let y = kani::any(); v.push(Wide::of(y)); after.push(y); };
        push_thrice<u8> v, x, after: { let [a, b, c] = bytes(); v.push(a); v.push(b); v.push(c); after.push(a); after.push(b); after.push(c); };
        insert_first<Obj> v, x, after: { let y = kani::any(); v.insert(0, Obj::of(y)); after.insert(0, y); };
        insert_last<Obj> v, x, after: { let y = kani::any(); v.insert(x.len(), Obj::of(y)); after.push(y); };
        pop<Obj> v, x, after: { let r = v.pop(); if x.len() == 0 { assert!(r.is_none()); } else { assert!(r.unwrap().get() == after.remove(x.len() - 1)); } };
        remove<Obj> v, x, after: { if x.len() > 0 { let r = v.remove(0); assert!(r.get() == after.remove(0)); } };
        swap_remove<Obj> v, x, after: { if x.len() > 0 { let r = v.swap_remove(0); assert!(r.get() == x[0]); after.n = 1; after.a[0] = x[1]; } };
        clear<Obj> v, x, after: { let c = v.capacity(); v.clear(); after.n = 0; assert!(v.capacity() == c); };
        truncate<Obj> v, x, after: { v.truncate(1); if x.len() > 1 { after.n = 1; } };
        truncate_longer<Obj> v, x, after: { v.truncate(3); };
        reserve<Obj> v, x, after: { v.reserve(3); assert!(v.capacity() >= x.len() + 3, "there is room for the elements asked for"); };
        reserve_exact<Obj> v, x, after: { let c = v.capacity(); v.reserve_exact(3); assert!(v.capacity() == c.max(x.len() + 3)); };
        try_reserve<Obj> v, x, after: { assert!(v.try_reserve(3).is_ok() && v.capacity() >= x.len() + 3); };
        try_reserve_exact<Obj> v, x, after: { let c = v.capacity(); assert!(v.try_reserve_exact(3).is_ok() && v.capacity() == c.max(x.len() + 3)); };
        try_reserve_too_much<Obj> v, x, after: { let c = v.capacity(); assert!(v.try_reserve(usize::MAX).is_err() && v.try_reserve_exact(usize::MAX).is_err() && v.capacity() == c); };
        shrink_to_fit<Obj> v, x, after: { v.shrink_to_fit(); assert!(v.capacity() == x.len(), "no room is left"); };
        shrink_to<Obj> v, x, after: { let c = v.capacity(); v.shrink_to(3); assert!(v.capacity() == if c > 3 { 3 } else { c }); };
        extend<Obj> v, x, after: { let [a, b] = bytes(); v.extend([Obj::of(a), Obj::of(b)]); after.push(a); after.push(b); };
        extend_from_slice<Obj> v, x, after: { let [a, b] = bytes(); let s = [Obj::of(a), Obj::of(b)]; v.extend_from_slice(&s); after.push(a); after.push(b); };
        extend_from_within<Obj> v, x, after: { v.extend_from_within(..); for i in 0..x.len() { after.push(x[i]); } };
        extend_from_part<Obj> v, x, after: { if x.len() == 2 { v.extend_from_within(1..2); after.push(x[1]); } };
        resize_longer<Obj> v, x, after: { let y = kani::any(); v.resize(3, Obj::of(y)); while after.n < 3 { after.push(y); } };
        resize_shorter<Obj> v, x, after: { v.resize(1.min(x.len()), Obj::of(9)); after.n = 1.min(x.len()); };
        resize_with<Obj> v, x, after: { let mut y: u8 = kani::any(); let y0 = y; v.resize_with(4, || { y = y.wrapping_add(1); Obj::of(y) }); let mut z = y0; while after.n < 4 { z = z.wrapping_add(1); after.push(z); } };
        append_to<Obj> v, x, after: { let y = bytes::<2>(); let mut w: vector<Obj> = cpp(&y, 3); v.append(&mut w); after.push(y[0]); after.push(y[1]); holds(&w, &[]); assert!(w.capacity() == 3); };
        append_nothing<Obj> v, x, after: { let mut w: vector<Obj> = cpp(&[], 0); v.append(&mut w); holds(&w, &[]); };
        append_from<Obj> v, x, after: { let y = bytes::<1>(); let mut w: vector<Obj> = cpp(&y, 1); w.append(&mut v); let l = { let mut l = List::new(&y); for i in 0..x.len() { l.push(x[i]); } l }; holds(&w, l.get()); after.n = 0; };
        split_off<Obj> v, x, after: { if x.len() == 2 { let w = v.split_off(1); holds(&w, &[x[1]]); after.n = 1; } };
        split_off_all<Obj> v, x, after: { let w = v.split_off(0); holds(&w, &x); after.n = 0; };
        split_off_nothing<Obj> v, x, after: { let w = v.split_off(x.len()); holds(&w, &[]); };
        prepare_and_set_len<u8> v, x, after: { if v.capacity() > x.len() { let y = kani::any(); v.prepare_to_write_into_tail(); unsafe { v.as_mut_ptr().add(x.len()).write(y); v.set_len(x.len() + 1); } after.push(y); } };
        set_len_shorter<u8> v, x, after: { if x.len() > 0 { v.prepare_to_write_into_tail(); unsafe { v.set_len(1); } after.n = 1; } };
        slices<Obj> v, x, after: {
            let p = v.as_ptr();
            assert!(v.as_slice().len() == x.len() && v.as_mut_slice().len() == x.len() && (*v).len() == x.len() && (&mut *v).len() == x.len());
            let r: &[Obj] = v.as_ref(); assert!(r.len() == x.len());
            let r: &[Obj] = std::borrow::Borrow::borrow(&v); assert!(r.len() == x.len());
            if x.len() > 0 {
                assert!(v.as_slice().as_ptr() == p && v.as_mut_slice().as_ptr() == p && (*v).as_ptr() == p && v.as_mut_ptr() as *const _ == p, "slices denote the elements themselves");
                let r: &mut [Obj] = v.as_mut(); assert!(r.len() == x.len() && r.as_ptr() == p);
                let r: &mut [Obj] = std::borrow::BorrowMut::borrow_mut(&mut v); assert!(r.len() == x.len() && r.as_ptr() == p);
                assert!(v[0].get() == x[0] && v[1..][0].get() == x[1] && v.get(2).is_none() && v.first().unwrap().get() == x[0]);
                let y = kani::any(); v[1].v = y; after.a[1] = y;
                let z = kani::any(); v.as_mut_slice()[0].v = z; after.a[0] = z;
            }
            let r: &vector<Obj> = v.as_ref(); assert!(core::ptr::eq(r, &v));
        };
        iterate<Obj> v, x, after: {
            let mut i = 0; for e in &v { assert!(e.get() == x[i]); i += 1; } assert!(i == x.len());
            i = 0; for e in &mut v { e.v = x[i].wrapping_add(1); after.a[i] = e.v; i += 1; } assert!(i == x.len());
        };
        cloned<Obj> v, x, after: { let w = v.clone(); holds(&w, &x); left::<Obj>(2 * x.len(), (v.capacity() > 0) as usize + (w.capacity() > 0) as usize); if x.len() > 0 { assert!(w.as_ptr() != v.as_ptr()); } };
        copied<Obj> v, x, after: { let w = v.to_vec(); assert!(w.len() == x.len()); for i in 0..x.len() { assert!(w[i].get() == x[i]); } left::<Obj>(2 * x.len(), (v.capacity() > 0) as usize); };
        assigned<Obj> v, x, after: { let y = bytes::<1>(); v = cpp(&y, 2); after = List::new(&y); };
    }
    /// Operations that use up the vector.
    macro_rules! consume {
        ($($n:ident <$t:ty> $v:ident, $x:ident: $b:block;)*) => { $(
            mod $n {
                use super::*;
                fn run<const N: usize>($x: [u8; N], c: usize) {
                    let mut $v: vector<$t> = cpp(&$x, c);
                    $b
                    left::<$t>(0, 0);
                }
                #[kani::proof] #[kani::unwind(10)] fn b_states() { run(bytes::<0>(), 0); run(bytes::<0>(), 2); run(bytes::<2>(), 2); run(bytes::<2>(), 4); }
            }
        )* };
    }
    consume! {
        into_vec<Obj> v, x: { let w: Vec<Obj> = v.into_vec(); left::<Obj>(x.len(), 0); assert!(w.len() == x.len()); for i in 0..x.len() { assert!(w[i].get() == x[i]); } };
        into_vec_from<Obj> v, x: { let w: Vec<Obj> = v.into(); left::<Obj>(x.len(), 0); assert!(w.len() == x.len()); for i in 0..x.len() { assert!(w[i].get() == x[i]); } };
        into_iter<Obj> v, x: {
            let mut i = v.into_iter();
            assert!(i.size_hint() == (x.len(), Some(x.len())) && i.len() == x.len() && i.as_slice().len() == x.len() && i.as_mut_slice().len() == x.len());
            for k in 0..x.len() { assert!(i.next().unwrap().get() == x[k]); }
            assert!(i.next().is_none() && i.next().is_none() && i.next_back().is_none());
        };
        into_iter_back<Obj> v, x: {
            let mut i = v.into_iter();
            for k in (0..x.len()).rev() { assert!(i.next_back().unwrap().get() == x[k]); }
            assert!(i.next_back().is_none());
        };
        into_iter_partly<Obj> v, x: {
            let mut i = v.into_iter();
            if x.len() > 0 { assert!(i.next().unwrap().get() == x[0]); assert!(i.as_slice().len() == 1 && i.as_slice()[0].get() == x[1] && i.as_mut_slice()[0].get() == x[1] && i.as_ref().len() == 1); }
        };
        into_iter_count<Obj> v, x: { assert!(v.into_iter().count() == x.len()); };
    }
    /// Vectors made of other things.
    macro_rules! made {
        ($($n:ident <$t:ty> $x:ident: $b:block;)*) => { $(
            mod $n {
                use super::*;
                fn run<const N: usize>($x: [u8; N]) {
                    let v: vector<$t> = $b;
                    holds(&v, &$x);
                    left::<$t>(N, (v.capacity() > 0) as usize);
                    drop(v);
                    left::<$t>(0, 0);
                }
                #[kani::proof] #[kani::unwind(10)] fn b_made() { run(bytes::<0>()); run(bytes::<2>()); }
            }
        )* };
    }
    fn objs<const N: usize>(x: &[u8; N]) -> [Obj; N] { core::array::from_fn(|i| Obj::of(x[i])) }
    made! {
        from_array<Obj> x: { vector::from(objs(&x)) };
        from_array_ref<Obj> x: { vector::from(&objs(&x)) };
        from_array_mut<Obj> x: { vector::from(&mut objs(&x)) };
        from_slice<Obj> x: { vector::from(&objs(&x)[..]) };
        from_slice_mut<Obj> x: { vector::from(&mut objs(&x)[..]) };
        from_vec<Obj> x: { vector::from(Vec::from(objs(&x))) };
        from_roomy_vec<Obj> x: { let mut w = Vec::with_capacity(5); w.extend(objs(&x)); vector::from(w) };
        from_cpp_vec<Obj> x: { let mut w = Vec::new_in(StdAllocator {}); w.extend(objs(&x)); let p = w.as_ptr(); let v = vector::from(w); if x.len() > 0 { assert!(v.as_ptr() == p, "a Vec in C++ memory is not copied"); } v };
        from_roomy_cpp_vec<Obj> x: { let mut w = Vec::with_capacity_in(5, StdAllocator {}); w.extend(objs(&x)); let v = vector::from(w); assert!(v.capacity() == 5); v };
        from_iter<Obj> x: { objs(&x).into_iter().collect() };
        pushed<Obj> x: { let mut v = vector::new(); for o in objs(&x) { v.push(o); } v };
        pushed_to_capacity<Obj> x: { let mut v = vector::with_capacity(2); assert!(v.capacity() >= 2 && v.is_empty()); let p = v.as_ptr(); for o in objs(&x) { v.push(o); } assert!(v.as_ptr() == p, "no growth within the capacity"); v };
        defaulted<Obj> x: { let mut v = vector::default(); assert!(v.capacity() == 0); for o in objs(&x) { v.push(o); } v };
    }

    fn four(x: &[u8; 4]) -> vector<Obj> { cpp(x, 4) }
    #[kani::proof] #[kani::unwind(10)] fn b_dedup() {
        let k: u8 = kani::any(); let l: u8 = kani::any(); kani::assume(k != l);
        let mut v = four(&[k, k, l, k]);
        match kani::any::<u8>() { 0 => v.dedup(), 1 => v.dedup_by(|a, b| a.v == b.v), _ => v.dedup_by_key(|a| a.v) }
        holds(&v, &[k, l, k]); left::<Obj>(3, 1); drop(v); left::<Obj>(0, 0);
    }
    #[kani::proof] #[kani::unwind(10)] fn b_dedup_by() {
        let x = bytes::<4>();
        let mut v = four(&x);
        let mut n = 0;
        v.dedup_by(|a, b| { n += 1; if n == 1 { assert!(a.v == x[1] && b.v == x[0], "it compares an element with the one before"); } n == 2 });
        assert!(n == 3);
        holds(&v, &[x[0], x[1], x[3]]); left::<Obj>(3, 1);
    }
    #[kani::proof] #[kani::unwind(10)] fn b_retain() {
        let x = bytes::<4>();
        let mut v = four(&x);
        let mut n = 0;
        v.retain(|e| { assert!(e.get() == x[n]); n += 1; n == 2 || n == 4 });
        assert!(n == 4);
        holds(&v, &[x[1], x[3]]); left::<Obj>(2, 1); drop(v); left::<Obj>(0, 0);
    }
    #[kani::proof] #[kani::unwind(10)] fn b_retain_mut() {
        let x = bytes::<4>();
        let mut v = four(&x);
        let mut n = 0;
        v.retain_mut(|e| { assert!(e.get() == x[n]); e.v = x[n].wrapping_add(1); n += 1; n != 2 });
        assert!(n == 4);
        holds(&v, &[x[0].wrapping_add(1), x[2].wrapping_add(1), x[3].wrapping_add(1)]); left::<Obj>(3, 1); drop(v); left::<Obj>(0, 0);
    }
    /// While the caller's code runs, the vector must be one that can be dropped: the code may panic.
    fn droppable(p: *const vector<Obj>) { let (b, n, c) = raw::get(unsafe { &*p }); assert!(b.is_null() && n == 0 && c == 0, "a vector gives up its elements before the caller's code, which may panic, can free them"); }
    #[kani::proof] #[kani::unwind(10)] fn b_panic_in_retain() { let x = bytes::<2>(); let mut v: vector<Obj> = cpp(&x, 2); let p: *const _ = &v; v.retain(|_| { droppable(p); true }); holds(&v, &x); }
    #[kani::proof] #[kani::unwind(10)] fn b_panic_in_retain_mut() { let x = bytes::<2>(); let mut v: vector<Obj> = cpp(&x, 2); let p: *const _ = &v; v.retain_mut(|_| { droppable(p); true }); holds(&v, &x); }
    #[kani::proof] #[kani::unwind(10)] fn b_panic_in_dedup() { let x = bytes::<2>(); let mut v: vector<Obj> = cpp(&x, 2); let p: *const _ = &v; v.dedup_by(|_, _| { droppable(p); false }); holds(&v, &x); }
    #[kani::proof] #[kani::unwind(10)] fn b_panic_in_resize() { let x = bytes::<2>(); let mut v: vector<Obj> = cpp(&x, 2); let p: *const _ = &v; v.resize_with(3, || { droppable(p); Obj::of(0) }); holds(&v, &[x[0], x[1], 0]); }
    #[kani::proof] #[kani::unwind(10)] fn b_panic_in_extend() { let x = bytes::<2>(); let mut v: vector<Obj> = cpp(&x, 2); let p: *const _ = &v; v.extend((0..1u8).map(|i| { droppable(p); Obj::of(i) })); holds(&v, &[x[0], x[1], 0]); }
    #[kani::proof] #[kani::unwind(10)] fn b_panic_in_from_iter() { let v: vector<Obj> = (0..2u8).map(|i| Obj::of(i)).collect(); holds(&v, &[0, 1]); }

    #[kani::proof] #[kani::unwind(10)] #[kani::should_panic] fn b_insert_beyond_must_panic() { let mut v: vector<Obj> = cpp(&[1, 2], 3); v.insert(3, Obj::of(0)); }
    #[kani::proof] #[kani::unwind(10)] #[kani::should_panic] fn b_remove_beyond_must_panic() { let mut v: vector<Obj> = cpp(&[1, 2], 3); v.remove(2); }
    #[kani::proof] #[kani::unwind(10)] #[kani::should_panic] fn b_swap_remove_beyond_must_panic() { let mut v: vector<Obj> = cpp(&[1, 2], 3); v.swap_remove(2); }
    #[kani::proof] #[kani::unwind(10)] #[kani::should_panic] fn b_split_beyond_must_panic() { let mut v: vector<Obj> = cpp(&[1, 2], 3); v.split_off(3); }
    #[kani::proof] #[kani::unwind(10)] #[kani::should_panic] fn b_index_beyond_must_panic() { let v: vector<Obj> = cpp(&[1, 2], 3); let _ = &v[2]; }
    #[kani::proof] #[kani::unwind(10)] #[kani::should_panic] fn b_index_empty_must_panic() { let v: vector<Obj> = cpp(&[], 0); let _ = &v[0]; }
}

#[cfg(kani)]
mod order {
    use super::model::*;
    use cc_std::std::*;
    use core::cmp::Ordering;
    use core::hash::{Hash, Hasher};

    /// Comparing vectors is comparing slices, for every two contents of up to two elements.
    fn pair<const N: usize, const M: usize>() {
        let (x, y) = (bytes::<N>(), bytes::<M>());
        let (mut v, mut w): (vector<u8>, vector<u8>) = (cpp(&x, N), cpp(&y, M + 1));
        let (a, b) = (&x[..], &y[..]);
        let mut same = N == M;
        let mut i = 0; while same && i < N { if x[i] != y[i] { same = false; } i += 1; }
        assert!((v == w) == same && (v != w) == !same, "vectors are equal if their elements are");
        let mut o = Ordering::Equal;
        let mut i = 0; while o == Ordering::Equal && i < N && i < M { o = x[i].cmp(&y[i]); i += 1; }
        if o == Ordering::Equal { o = N.cmp(&M); }
        assert!(v.cmp(&w) == o && v.partial_cmp(&w) == Some(o), "they are ordered lexicographically");
        assert!((v == *b) == same && (*a == w) == same && (v == b) == same && (a == w) == same && (v == y) == same && (v == &y) == same);
        let mut y2 = y; let mut x2 = x;
        { let m: &mut [u8] = &mut y2[..]; assert!((v == m) == same); }
        { let m: &mut [u8] = &mut x2[..]; assert!((m == w) == same); }
        kani::cover!(same == (N == M), "MUST: compared");
    }
    #[kani::proof] #[kani::unwind(10)] fn b_00() { pair::<0, 0>() }
    #[kani::proof] #[kani::unwind(10)] fn b_01() { pair::<0, 1>() }
    #[kani::proof] #[kani::unwind(10)] fn b_11() { pair::<1, 1>() }
    #[kani::proof] #[kani::unwind(10)] fn b_12() { pair::<1, 2>() }
    #[kani::proof] #[kani::unwind(10)] fn b_22() { pair::<2, 2>() }
    #[kani::proof] #[kani::unwind(10)] fn b_vec() {
        let (x, y) = (bytes::<2>(), bytes::<2>());
        let v: vector<u8> = cpp(&x, 2);
        let w = Vec::from(y);
        assert!((v == w) == (x[0] == y[0] && x[1] == y[1]) && (w == v) == (v == w));
        let o: vector<Obj> = cpp(&x, 2);
        assert!((o == v) && o == x, "elements of different types are compared as they define it");
    }
    struct Sum(u64);
    impl Hasher for Sum { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.0 = (self.0 << 8 | self.0 >> 56) ^ b[i] as u64; i += 1; } } }
    #[kani::proof] #[kani::unwind(10)] fn b_hash() {
        let x = bytes::<2>();
        let v: vector<u8> = cpp(&x, 3);
        let (mut h, mut g) = (Sum(1), Sum(1));
        v.hash(&mut h);
        x[..].hash(&mut g);
        assert!(h.0 == g.0, "a vector is hashed as the slice that it borrows as");
    }
}

/// For every address and size.
#[cfg(kani)]
mod any_size {
    use super::model::*;
    use cc_std::std::*;
    #[kani::proof] fn h_view() {
        let p = core::ptr::NonNull::<u32>::dangling().as_ptr() as *const u32;
        let (n, c): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= c && c > 0 && c <= (1usize << 40));
        let base: u32 = 0;
        let v = core::mem::ManuallyDrop::new(raw_any(n, c));
        assert!(v.len() == n && v.capacity() == c && v.is_empty() == (n == 0), "for every size");
        kani::cover!(n > 1000 && n < c, "MUST: large");
    }
    #[cfg(feature = "len_capacity_encoding")]
    fn raw_any(n: usize, c: usize) -> vector<u32> { raw::set(core::ptr::NonNull::<u32>::dangling().as_ptr(), n, c) }
    #[cfg(not(feature = "len_capacity_encoding"))]
    fn raw_any(n: usize, c: usize) -> vector<u32> {
        let l = std::alloc::Layout::array::<u32>(c).unwrap();
        raw::set(unsafe { std::alloc::alloc(l) } as *const u32, n, c)
    }
}
