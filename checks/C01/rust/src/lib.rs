//! Contracts of the bridge ABI (Rust side).
//!
//! Specification (shared with the C++ side, see ../cpp/bridge.cc): a value of an
//! ABI `A` occupies exactly `A::SIZE` bytes. Parts are laid out from the END of
//! the buffer towards its start, in declaration order: a leaf `T` takes the
//! `size_of::<T>()` bytes that end where the previous part starts, bytes equal
//! to its object representation; a tuple is its elements in order; an option is
//! a one-byte bool followed, only when it is present, by its payload.
#![allow(dead_code)]
#![cfg_attr(not(kani), allow(unused))]

#[cfg(kani)]
mod spec {
    use bridge_rust::*;

    /// Abstract view of an encoded buffer: which byte each position must hold.
    pub const CAP: usize = 64;
    pub struct Img {
        pub rem: usize,
        pub set: [bool; CAP],
        pub val: [u8; CAP],
    }
    impl Img {
        pub fn leaf(&mut self, bytes: &[u8]) {
            self.rem -= bytes.len();
            let mut i = 0;
            while i < bytes.len() {
                self.set[self.rem + i] = true;
                self.val[self.rem + i] = bytes[i];
                i += 1;
            }
        }
    }
    /// The layout specification of an ABI, by structural recursion.
    pub trait Spec: CrubitAbi {
        const SPEC_SIZE: usize;
        fn layout(v: &Self::Value, img: &mut Img);
        fn same(a: &Self::Value, b: &Self::Value) -> bool;
        fn mk() -> Self;
        fn any() -> Self::Value;
        fn dup(v: &Self::Value) -> Self::Value;
    }
    macro_rules! leaf { ($($t:ty),*) => {$(
        impl Spec for TransmuteAbi<$t> {
            const SPEC_SIZE: usize = core::mem::size_of::<$t>();
            fn layout(v: &$t, img: &mut Img) { img.leaf(&v.to_ne_bytes()); }
            fn same(a: &$t, b: &$t) -> bool { a.to_ne_bytes() == b.to_ne_bytes() }
            fn mk() -> Self { transmute_abi() }
            fn any() -> $t { kani::any() }
            fn dup(v: &$t) -> $t { *v }
        })*}}
    leaf!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize, f32, f64);
    impl Spec for TransmuteAbi<bool> {
        const SPEC_SIZE: usize = 1;
        fn layout(v: &bool, img: &mut Img) { img.leaf(&[*v as u8]); }
        fn same(a: &bool, b: &bool) -> bool { a == b }
        fn mk() -> Self { transmute_abi() }
        fn any() -> bool { kani::any() }
        fn dup(v: &bool) -> bool { *v }
    }
    impl Spec for TransmuteAbi<char> {
        const SPEC_SIZE: usize = 4;
        fn layout(v: &char, img: &mut Img) { img.leaf(&(*v as u32).to_ne_bytes()); }
        fn same(a: &char, b: &char) -> bool { a == b }
        fn mk() -> Self { transmute_abi() }
        fn any() -> char { kani::any() }
        fn dup(v: &char) -> char { *v }
    }
    impl<const N: usize> Spec for TransmuteAbi<[u8; N]> {
        const SPEC_SIZE: usize = N;
        fn layout(v: &[u8; N], img: &mut Img) { img.leaf(v); }
        fn same(a: &[u8; N], b: &[u8; N]) -> bool { a == b }
        fn mk() -> Self { transmute_abi() }
        fn any() -> [u8; N] { kani::any() }
        fn dup(v: &[u8; N]) -> [u8; N] { *v }
    }
    impl<A: Spec> Spec for OptionAbi<A> {
        const SPEC_SIZE: usize = 1 + A::SPEC_SIZE;
        fn layout(v: &Option<A::Value>, img: &mut Img) {
            match v {
                None => img.leaf(&[0]),
                Some(x) => { img.leaf(&[1]); A::layout(x, img) }
            }
        }
        fn same(a: &Self::Value, b: &Self::Value) -> bool {
            match (a, b) { (None, None) => true, (Some(x), Some(y)) => A::same(x, y), _ => false }
        }
        fn mk() -> Self { OptionAbi(A::mk()) }
        fn any() -> Self::Value { if kani::any() { Some(A::any()) } else { None } }
        fn dup(v: &Self::Value) -> Self::Value { match v { None => None, Some(x) => Some(A::dup(x)) } }
    }
    macro_rules! tuples { ($( ( $($A:ident $i:tt),* ) )*) => {$(
        impl<$($A: Spec),*> Spec for ($($A,)*) {
            const SPEC_SIZE: usize = 0 $(+ $A::SPEC_SIZE)*;
            #[allow(unused)]
            fn layout(v: &Self::Value, img: &mut Img) { $($A::layout(&v.$i, img);)* }
            #[allow(unused)]
            fn same(a: &Self::Value, b: &Self::Value) -> bool { true $(&& $A::same(&a.$i, &b.$i))* }
            fn mk() -> Self { ($($A::mk(),)*) }
            fn any() -> Self::Value { ($($A::any(),)*) }
            #[allow(unused)]
            fn dup(v: &Self::Value) -> Self::Value { ($($A::dup(&v.$i),)*) }
        })*}}
    tuples! {
        () (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4)
        (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
        (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
        (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
        (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
        (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
    }

    const PAD: usize = 3; // guard bytes on both sides; also makes the buffer misaligned

    /// encode's contract: writes exactly the image, touches nothing else.
    /// decode's contract: from any buffer that carries the image, yields the value.
    pub fn contract<A: Spec>() {
        assert!(A::SIZE == A::SPEC_SIZE);
        let v = A::any();
        let mut img = Img { rem: A::SPEC_SIZE, set: [false; CAP], val: [0; CAP] };
        A::layout(&v, &mut img);
        let before: [u8; CAP + 2 * PAD] = kani::any();
        let mut buf = before;
        let keep = A::dup(&v);
        unsafe { internal::encode(A::mk(), buf.as_mut_ptr().add(PAD), v) };
        // one symbolic position stands for all positions
        let i: usize = kani::any();
        kani::assume(i < CAP + 2 * PAD);
        kani::cover!(i >= PAD && i < PAD + A::SPEC_SIZE || A::SPEC_SIZE == 0, "MUST: position inside the encoding");
        kani::cover!(i < PAD, "MUST: position outside the encoding");
        if i >= PAD && i < PAD + A::SPEC_SIZE && img.set[i - PAD] {
            assert!(buf[i] == img.val[i - PAD], "encoded byte equals the layout specification");
        } else {
            assert!(buf[i] == before[i], "bytes outside the encoding are untouched");
        }
        // decode from a buffer that agrees with the specification only on the image
        let mut other: [u8; CAP + 2 * PAD] = kani::any();
        let mut k = 0;
        while k < A::SPEC_SIZE {
            if img.set[k] { other[PAD + k] = img.val[k]; }
            k += 1;
        }
        let snapshot = other;
        let back = unsafe { internal::decode(A::mk(), other.as_ptr().add(PAD)) };
        assert!(A::same(&keep, &back), "decode inverts the layout specification");
        assert!(other == snapshot, "decode leaves the buffer untouched");
    }
}

#[cfg(kani)]
mod layout {
    use super::spec::*;
    use bridge_rust::*;
    type T<X> = TransmuteAbi<X>;
    type O<X> = OptionAbi<X>;
    macro_rules! prove { ($($name:ident: $t:ty;)*) => {$(
        #[kani::proof]
        #[kani::solver(cadical)]
        pub(crate) fn $name() { contract::<$t>() }
    )*}}
    prove! {
        leaf_u8: T<u8>;
        leaf_u16: T<u16>;
        leaf_u32: T<u32>;
        leaf_u64: T<u64>;
        leaf_u128: T<u128>;
        leaf_i16: T<i16>;
        leaf_i64: T<i64>;
        leaf_isize: T<isize>;
        leaf_f32: T<f32>;
        leaf_f64: T<f64>;
        leaf_bool: T<bool>;
        leaf_char: T<char>;
        leaf_odd_size: T<[u8; 7]>;
        leaf_zst: T<[u8; 0]>;
        option_of_leaf: O<T<u32>>;
        option_of_byte: O<T<u8>>;
        option_of_zst: O<T<[u8; 0]>>;
        option_of_option: O<O<T<u16>>>;
        option_of_tuple: O<(T<u8>, T<u64>)>;
        option_of_unit: O<()>;
        tuple0: ();
        tuple1: (T<u32>,);
        tuple2: (T<u8>, T<u32>);
        tuple3: (T<u8>, T<u16>, T<u32>);
        tuple4: (T<u8>, O<T<u16>>, T<u8>, T<u64>);
        tuple5: (T<u8>, T<u16>, T<u32>, T<u8>, T<u16>);
        tuple6: (T<u8>, T<u16>, T<u8>, T<u8>, T<u16>, T<u32>);
        tuple7: (T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>, T<u8>);
        tuple8: (T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>, T<u8>, T<u32>);
        tuple9: (T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>, T<u8>, T<u8>, T<u16>);
        tuple10: (T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>, T<u8>, T<u8>, T<u16>, T<u8>);
        tuple11: (T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>);
        tuple12: (T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>, T<u8>, T<u8>, T<u16>, T<u8>, T<u8>, T<u16>);
        nested: (O<(T<i64>, T<bool>)>, (T<u8>, T<f32>));
        nested_mixed: (O<(O<T<u8>>, O<T<u32>>)>, T<char>, (T<u16>, ()), O<T<[u8; 3]>>);
    }
}

#[cfg(kani)]
mod ownership {
    use bridge_rust::*;
    use core::cell::Cell;

    /// A value that counts its destructions; deliberately not Copy.
    struct D<'a>(&'a Cell<u32>, u16);
    impl Drop for D<'_> {
        fn drop(&mut self) { self.0.set(self.0.get() + 1); }
    }

    fn buf(n: usize) -> Vec<u8> { vec![0; n] }

    /// The same with payloads of other sizes and alignments.
    struct P<'a, X>(X, Option<&'a Cell<u32>>);
    impl<X> Drop for P<'_, X> {
        fn drop(&mut self) { if let Some(c) = self.1 { c.set(c.get() + 1); } }
    }
    #[derive(Clone, Copy, PartialEq)]
    #[repr(align(16))]
    struct A16(u8);
    #[derive(Clone, Copy, PartialEq)]
    #[repr(align(64))]
    struct A64(u8);
    fn exactly_once<X: Copy + PartialEq>(x: X) {
        let c = Cell::new(0);
        let n = <TransmuteAbi<P<X>> as CrubitAbi>::SIZE;
        assert!(n == core::mem::size_of::<P<X>>());
        let mut b = buf(n + 1);
        unsafe { internal::encode(transmute_abi::<P<X>>(), b.as_mut_ptr().add(1), P(x, Some(&c))) };
        assert!(c.get() == 0, "encode must not destroy the moved value");
        let d = unsafe { internal::decode(transmute_abi::<P<X>>(), b.as_ptr().add(1)) };
        assert!(c.get() == 0 && d.0 == x && core::ptr::eq(d.1.unwrap(), &c));
        drop(d);
        assert!(c.get() == 1, "exactly one destruction");
        kani::cover!(true, "MUST: end");
    }
    #[kani::proof]
    fn exactly_once_small() { exactly_once::<()>(()); }
    #[kani::proof]
    fn exactly_once_aligned() { exactly_once(A16(kani::any())); }
    #[kani::proof]
    fn exactly_once_over_aligned() { exactly_once(A64(kani::any())); }
    #[kani::proof]
    fn exactly_once_large() { exactly_once::<[u8; 40]>(kani::any()); }
    /// A type of size zero that is dropped: only its drop count shows.
    #[kani::proof]
    fn exactly_once_zero_sized() {
        static mut DROPS: (u32, u64) = (0, 0x5EED0013);
        struct Z;
        impl Drop for Z { fn drop(&mut self) { unsafe { DROPS.0 += 1 } } }
        let mut b = buf(1);
        unsafe { internal::encode(transmute_abi::<Z>(), b.as_mut_ptr(), Z) };
        assert!(unsafe { DROPS.0 } == 0);
        drop(unsafe { internal::decode(transmute_abi::<Z>(), b.as_ptr()) });
        assert!(unsafe { DROPS.0 } == 1);
    }

    #[kani::proof]
    fn moved_value_is_dropped_exactly_once() {
        let c = Cell::new(0);
        let x: u16 = kani::any();
        type A<'a> = TransmuteAbi<D<'a>>;
        let mut b = buf(A::SIZE);
        unsafe { internal::encode(transmute_abi::<D>(), b.as_mut_ptr(), D(&c, x)) };
        assert!(c.get() == 0, "encode must not destroy the moved value");
        let d = unsafe { internal::decode(transmute_abi::<D>(), b.as_ptr()) };
        assert!(c.get() == 0 && d.1 == x && core::ptr::eq(d.0, &c));
        drop(d);
        assert!(c.get() == 1, "exactly one destruction");
        kani::cover!(true, "MUST: end");
    }

    #[kani::proof]
    fn moved_option_and_tuple_are_dropped_exactly_once() {
        let c1 = Cell::new(0);
        let c2 = Cell::new(0);
        let present: bool = kani::any();
        type A<'a> = (OptionAbi<TransmuteAbi<D<'a>>>, TransmuteAbi<D<'a>>);
        let mk = || (OptionAbi(transmute_abi()), transmute_abi());
        let mut b = buf(A::SIZE);
        let v = (if present { Some(D(&c1, 1)) } else { None }, D(&c2, 2));
        unsafe { internal::encode::<A>(mk(), b.as_mut_ptr(), v) };
        assert!(c1.get() == 0 && c2.get() == 0);
        let r = unsafe { internal::decode::<A>(mk(), b.as_ptr()) };
        assert!(r.0.is_some() == present && r.1.1 == 2);
        assert!(c1.get() == 0 && c2.get() == 0);
        drop(r);
        assert!(c1.get() == present as u32 && c2.get() == 1);
        kani::cover!(present, "MUST: present");
        kani::cover!(!present, "MUST: absent");
    }

    /// Heap ownership travels through the buffer.
    #[kani::proof]
    fn box_round_trip() {
        let x: u32 = kani::any();
        type A = OptionAbi<TransmuteAbi<Box<u32>>>;
        let mut b = buf(A::SIZE);
        unsafe { internal::encode::<A>(OptionAbi(transmute_abi()), b.as_mut_ptr(), Some(Box::new(x))) };
        let r = unsafe { internal::decode::<A>(OptionAbi(transmute_abi()), b.as_ptr()) };
        assert!(*r.unwrap() == x);
    }
}

#[cfg(kani)]
mod user_abis {
    use bridge_rust::*;

    /// A user-written composite ABI whose parts are encoded through the public API.
    struct Composite;
    unsafe impl CrubitAbi for Composite {
        type Value = (u16, u8);
        const SIZE: usize = 3;
        fn encode(self, v: Self::Value, e: &mut Encoder) {
            transmute_abi().encode(v.0, e);
            transmute_abi().encode(v.1, e);
        }
        unsafe fn decode(self, d: &mut Decoder) -> Self::Value {
            let a = unsafe { transmute_abi().decode(d) };
            let b = unsafe { transmute_abi().decode(d) };
            (a, b)
        }
    }
    #[kani::proof]
    fn composite_inside_option() {
        let v: Option<(u16, u8)> = kani::any();
        let mut b = [0u8; 6];
        unsafe { internal::encode(OptionAbi(Composite), b.as_mut_ptr().add(1), v) };
        assert!(b[0] == 0 && b[5] == 0);
        assert!(b[4] == v.is_some() as u8);
        if let Some((x, y)) = v {
            assert!(b[2..4] == x.to_ne_bytes() && b[1] == y);
        }
        assert!(unsafe { internal::decode(OptionAbi(Composite), b.as_ptr().add(1)) } == v);
    }

    /// An ABI that under-reports its size is stopped before it writes or reads
    /// outside the buffer (debug builds).
    struct Liar;
    unsafe impl CrubitAbi for Liar {
        type Value = u32;
        const SIZE: usize = 3;
        fn encode(self, v: u32, e: &mut Encoder) { transmute_abi().encode(v, e) }
        unsafe fn decode(self, d: &mut Decoder) -> u32 { unsafe { transmute_abi().decode(d) } }
    }
    #[kani::proof]
    fn undersized_encode_must_panic() {
        let mut b = [0u8; 3];
        unsafe { internal::encode(Liar, b.as_mut_ptr(), kani::any()) };
        kani::cover!(true, "NEVER: an encoder ran past the start of its buffer");
        #[cfg(test)]
        panic!("an encoder ran past the start of its buffer");
    }
    #[kani::proof]
    fn undersized_decode_must_panic() {
        let b: [u8; 3] = kani::any();
        let _ = unsafe { internal::decode(Liar, b.as_ptr()) };
        kani::cover!(true, "NEVER: a decoder ran past the start of its buffer");
        #[cfg(test)]
        panic!("a decoder ran past the start of its buffer");
    }

    /// The macros that generated code uses allocate exactly SIZE bytes and move the value.
    #[kani::proof]
    fn macros_round_trip() {
        type A = (OptionAbi<TransmuteAbi<u32>>, TransmuteAbi<u8>);
        let v: (Option<u32>, u8) = kani::any();
        let buf = unstable_encode!(@ (OptionAbi(transmute_abi()), transmute_abi()), A, v);
        assert!(core::mem::size_of_val(&buf) == 6);
        let back = unstable_return!(@ (OptionAbi(transmute_abi()), transmute_abi()), A, |out: *mut u8| unsafe {
            core::ptr::copy_nonoverlapping(buf.as_ptr() as *const u8, out, 6)
        });
        assert!(back == v);
    }
}
