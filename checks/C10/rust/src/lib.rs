//! Contracts of ffi_11: the one-to-one C++ fundamental types.
//!
//! Abstract value of a type: a mathematical integer (i128). Every constructor,
//! conversion, comparison and operator is specified over abstract values; the
//! operators of a newtype are those of its underlying integer, including the
//! panic on overflow and on division by zero.
#![allow(dead_code)]

#[cfg(kani)]
mod newtypes {
    use ffi_11::*;

    macro_rules! newtype { ($m:ident, $t:ty, $u:ty, $new:path) => { pub mod $m {
        use super::*;
        use core::cmp::Ordering;
        type T = $t;
        type U = $u;
        fn mk(u: U) -> T { $new(u) }
        /// The abstract value, read from the object representation.
        fn raw(t: T) -> U { unsafe { core::mem::transmute::<T, U>(t) } }

        #[kani::proof]
        fn layout_and_value() {
            assert!(core::mem::size_of::<T>() == core::mem::size_of::<U>(), "same size as the underlying integer");
            assert!(core::mem::align_of::<T>() == core::mem::align_of::<U>(), "same alignment as the underlying integer");
            let u: U = kani::any();
            assert!(raw(mk(u)) == u, "the constructor keeps the value");
            let back: U = mk(u).into();
            assert!(back == u, "conversion back to the underlying type is the identity");
            assert!(raw(T::from(u)) == u, "From<underlying> is the identity");
            assert!(raw(T::default()) == 0, "Default is zero");
            let c = mk(u);
            let d = c.clone();
            assert!(raw(c) == raw(d), "Clone keeps the value");
        }

        #[kani::proof]
        fn comparisons() {
            let (a, b): (U, U) = (kani::any(), kani::any());
            let (x, y) = (mk(a), mk(b));
            assert!((x == y) == (a == b) && (x != y) == (a != b), "equality of values");
            assert!((x == b) == (a == b) && (a == y) == (a == b), "mixed equality of values");
            assert!((x != b) == (a != b) && (a != y) == (a != b), "mixed inequality of values");
            assert!(x.cmp(&y) == a.cmp(&b), "Ord agrees with the underlying order");
            assert!(x.partial_cmp(&y) == Some(a.cmp(&b)), "PartialOrd agrees with the underlying order");
            assert!(x.partial_cmp(&b) == Some(a.cmp(&b)), "mixed PartialOrd agrees with the underlying order");
            assert!(a.partial_cmp(&y) == Some(a.cmp(&b)), "reverse mixed PartialOrd agrees with the underlying order");
            assert!((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "operators agree with the order");
            assert!((x < b) == (a < b) && (a < y) == (a < b) && (x >= b) == (a >= b) && (a >= y) == (a >= b), "mixed operators agree with the order");
            assert!(x.max(y) == mk(a.max(b)) && x.min(y) == mk(a.min(b)), "max and min agree with the order");
            kani::cover!(a.cmp(&b) == Ordering::Less, "MUST: distinct values");
        }

        struct Rec { buf: [u8; 32], n: usize }
        impl core::hash::Hasher for Rec {
            fn finish(&self) -> u64 { self.n as u64 }
            fn write(&mut self, bytes: &[u8]) {
                let mut i = 0;
                while i < bytes.len() { self.buf[self.n] = bytes[i]; self.n += 1; i += 1; }
            }
        }
        #[kani::proof]
        #[kani::unwind(34)]
        fn hash_agrees_with_equality() {
            use core::hash::Hash;
            let u: U = kani::any();
            let (mut a, mut b) = (Rec { buf: [0; 32], n: 0 }, Rec { buf: [0; 32], n: 0 });
            mk(u).hash(&mut a);
            u.hash(&mut b);
            assert!(a.n == b.n && a.buf == b.buf, "hashes like the underlying value");
        }

        macro_rules! op { ($h:ident, $p:ident, $checked:ident, $o:tt, $oa:tt, $s:ident) => {
            #[kani::proof]
            #[kani::solver($s)]
            fn $h() {
                let (a, b): (U, U) = (kani::any(), kani::any());
                kani::assume(a.$checked(b).is_some());
                let want = a $o b;
                let (x, y) = (mk(a), mk(b));
                let r1: T = x $o y;
                let r2: U = x $o b;
                let r3: U = a $o y;
                assert!(raw(r1) == want, "newtype op newtype");
                assert!(r2 == want, "newtype op underlying");
                assert!(r3 == want, "underlying op newtype");
                let mut m = x; m $oa y;
                assert!(raw(m) == want, "newtype op= newtype");
                let mut m = x; m $oa b;
                assert!(raw(m) == want, "newtype op= underlying");
                let mut m = a; m $oa y;
                assert!(m == want, "underlying op= newtype");
                kani::cover!(a > 1 && b > 1, "MUST: operands");
            }
            #[kani::proof]
            fn $p() {
                let (a, b): (U, U) = (kani::any(), kani::any());
                kani::assume(a.$checked(b).is_none());
                let (x, y) = (mk(a), mk(b));
                let which: u8 = kani::any();
                match which % 6 {
                    0 => { let _ = x $o y; }
                    1 => { let _ = x $o b; }
                    2 => { let _ = a $o y; }
                    3 => { let mut m = x; m $oa y; }
                    4 => { let mut m = x; m $oa b; }
                    _ => { let mut m = a; m $oa y; }
                }
                kani::cover!(true, "NEVER: an overflow of the underlying operator goes unreported");
            }
        } }
        op!(add, add_overflow_must_panic, checked_add, +, +=, cadical);
        op!(sub, sub_overflow_must_panic, checked_sub, -, -=, cadical);
        op!(mul, mul_overflow_must_panic, checked_mul, *, *=, z3);
        op!(div, div_by_zero_must_panic, checked_div, /, /=, z3);
    } } }
    newtype!(c_char_, c_char, u8, new_c_char);
    newtype!(c_char8_t_, c_char8_t, u8, new_c_char8_t);
    newtype!(c_char16_t_, c_char16_t, u16, new_c_char16_t);
    newtype!(c_char32_t_, c_char32_t, u32, new_c_char32_t);
    newtype!(c_wchar_t_, c_wchar_t, u32, new_c_wchar_t);
    newtype!(c_longlong_, c_longlong, i64, new_c_longlong);
    newtype!(c_ulonglong_, c_ulonglong, u64, new_c_ulonglong);
}

#[cfg(kani)]
mod conversions {
    use ffi_11::*;
    use core::sync::atomic::*;

    trait Val { fn val(self) -> i128; }
    macro_rules! prim { ($($t:ty),*) => {$( impl Val for $t { fn val(self) -> i128 { self as i128 } } )*} }
    prim!(u8, i8, u16, i16, u32, i32, u64, i64, i128, usize, isize);
    macro_rules! nt { ($($t:ty => $u:ty),*) => {$( impl Val for $t { fn val(self) -> i128 { unsafe { core::mem::transmute::<$t, $u>(self) as i128 } } } )*} }
    nt!(c_char => u8, c_char8_t => u8, c_char16_t => u16, c_char32_t => u32, c_wchar_t => u32, c_longlong => i64, c_ulonglong => u64);
    macro_rules! lossless { ($h:ident, $from:expr, $u:ty => $($to:ty),*) => {
        #[kani::proof]
        fn $h() {
            let u: $u = kani::any();
            $( assert!(<$to>::from($from(u)).val() == u as i128, concat!("lossless conversion to ", stringify!($to))); )*
        } } }
    lossless!(from_c_char, new_c_char, u8 => u8, i16, u16, i32, u32, i64, u64, i128, usize, c_char8_t, c_char16_t, c_char32_t, c_wchar_t);
    lossless!(from_c_char8_t, new_c_char8_t, u8 => u8, i16, u16, i32, u32, i64, u64, i128, usize, c_char16_t, c_char32_t, c_wchar_t);
    lossless!(from_c_char16_t, new_c_char16_t, u16 => u16, i32, u32, i64, u64, i128, usize, c_char32_t, c_wchar_t);
    lossless!(from_c_char32_t, new_c_char32_t, u32 => u32, i64, u64, i128, c_wchar_t);
    lossless!(from_c_wchar_t, new_c_wchar_t, u32 => u32, i64, u64, i128, c_char32_t);
    lossless!(from_c_longlong, new_c_longlong, i64 => i64, i128);
    lossless!(from_c_ulonglong, new_c_ulonglong, u64 => u64);
    lossless!(from_u8, core::convert::identity::<u8>, u8 => c_char, c_char8_t, c_char16_t, c_char32_t, c_wchar_t, c_longlong, c_ulonglong);
    lossless!(from_u16, core::convert::identity::<u16>, u16 => c_char16_t, c_char32_t, c_wchar_t, c_ulonglong);
    lossless!(from_u32, core::convert::identity::<u32>, u32 => c_char32_t, c_wchar_t, c_ulonglong);
    lossless!(from_u64, core::convert::identity::<u64>, u64 => c_ulonglong);
    lossless!(from_i8, core::convert::identity::<i8>, i8 => c_longlong);
    lossless!(from_i16, core::convert::identity::<i16>, i16 => c_longlong);
    lossless!(from_i32, core::convert::identity::<i32>, i32 => c_longlong);
    lossless!(from_i64, core::convert::identity::<i64>, i64 => c_longlong);

    #[kani::proof]
    fn to_u128() {
        let (a, b, c, d): (u8, u16, u32, u64) = (kani::any(), kani::any(), kani::any(), kani::any());
        assert!(u128::from(new_c_char(a)) == a as u128 && u128::from(new_c_char8_t(a)) == a as u128, "u8 to u128");
        assert!(u128::from(new_c_char16_t(b)) == b as u128, "u16 to u128");
        assert!(u128::from(new_c_char32_t(c)) == c as u128 && u128::from(new_c_wchar_t(c)) == c as u128, "u32 to u128");
        assert!(u128::from(new_c_ulonglong(d)) == d as u128, "u64 to u128");
    }
    #[kani::proof]
    fn to_floats() {
        let (a, b, c): (u8, u16, u32) = (kani::any(), kani::any(), kani::any());
        assert!(f32::from(new_c_char(a)) == a as f32 && f64::from(new_c_char(a)) == a as f64, "c_char to floats");
        assert!(f32::from(new_c_char8_t(a)) == a as f32 && f64::from(new_c_char8_t(a)) == a as f64, "c_char8_t to floats");
        assert!(f32::from(new_c_char16_t(b)) == b as f32 && f64::from(new_c_char16_t(b)) == b as f64, "c_char16_t to floats");
        assert!(f64::from(new_c_char32_t(c)) == c as f64 && f64::from(new_c_wchar_t(c)) == c as f64, "32-bit characters to f64");
    }
    #[kani::proof]
    fn to_atomics() {
        let (a, b, c, d, e): (u8, u16, u32, i64, u64) = (kani::any(), kani::any(), kani::any(), kani::any(), kani::any());
        assert!(AtomicU8::from(new_c_char(a)).into_inner() == a && AtomicU8::from(new_c_char8_t(a)).into_inner() == a, "AtomicU8");
        assert!(AtomicU16::from(new_c_char16_t(b)).into_inner() == b, "AtomicU16");
        assert!(AtomicU32::from(new_c_char32_t(c)).into_inner() == c && AtomicU32::from(new_c_wchar_t(c)).into_inner() == c, "AtomicU32");
        assert!(AtomicI64::from(new_c_longlong(d)).into_inner() == d, "AtomicI64");
        assert!(AtomicU64::from(new_c_ulonglong(e)).into_inner() == e, "AtomicU64");
    }
    #[kani::proof]
    fn atomic_char() {
        let (a, b): (u8, u8) = (kani::any(), kani::any());
        let x = c_atomic_char::new(new_c_char(a));
        assert!(x.load(Ordering::SeqCst) == a, "the atomic starts with the value it was given");
        assert!(x.swap(b, Ordering::SeqCst) == a && x.load(Ordering::SeqCst) == b, "the atomic is the underlying atomic");
        assert!(c_atomic_char::default().load(Ordering::SeqCst) == 0, "Default is zero");
        assert!(core::mem::size_of::<c_atomic_char>() == 1 && core::mem::align_of::<c_atomic_char>() == 1, "layout of the atomic");
    }
    /// c_char is ambiguously signed: it converts to and from both i8 and u8, bit for bit.
    #[kani::proof]
    fn c_char_both_signs() {
        let (u, i): (u8, i8) = (kani::any(), kani::any());
        assert!(i8::from(new_c_char(u)) == u as i8, "c_char to i8 keeps the bits");
        assert!(u8::from(c_char::from(i)) == i as u8, "i8 to c_char keeps the bits");
        assert!(i8::from(c_char::from(i)) == i, "i8 round trip");
        assert!(u8::from(c_char::from(u)) == u && u8::from(c_char::new(u)) == u, "u8 round trip");
    }
    #[kani::proof]
    fn aliases() {
        assert!(new_c_schar(-1) == -1i8 && new_c_uchar(255) == 255u8, "chars");
        let (a, b, c, d, e, f): (i16, u16, i32, u32, i64, u64) = (kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any());
        let (g, h): (f32, f64) = (kani::any(), kani::any());
        let (i, j): (i8, u8) = (kani::any(), kani::any());
        assert!(new_c_short(a) == a && new_c_ushort(b) == b && new_c_int(c) == c && new_c_uint(d) == d, "short and int");
        assert!(new_c_long(e) == e && new_c_ulong(f) == f, "long");
        assert!(new_c_schar(i) == i && new_c_uchar(j) == j, "signed and unsigned char");
        assert!(new_c_float(g).to_bits() == g.to_bits() && new_c_double(h).to_bits() == h.to_bits(), "floats");
    }
    #[kani::proof]
    fn nullptr() {
        let n = c_nullptr_t::default();
        let bits: usize = unsafe { core::mem::transmute(n) };
        assert!(bits == 0, "nullptr_t is the null pointer");
        assert!(core::mem::size_of::<c_nullptr_t>() == core::mem::size_of::<*const u8>() && core::mem::align_of::<c_nullptr_t>() == core::mem::align_of::<*const u8>(), "nullptr_t has the layout of a pointer");
    }

    /// Guarantee 1 and 2: pairwise distinct Rust types; the fixed-width ones are the builtins.
    #[kani::proof]
    fn identity() {
        use core::any::TypeId;
        let ids = [
            TypeId::of::<c_char>(), TypeId::of::<c_schar>(), TypeId::of::<c_uchar>(), TypeId::of::<c_short>(),
            TypeId::of::<c_ushort>(), TypeId::of::<c_int>(), TypeId::of::<c_uint>(), TypeId::of::<c_long>(),
            TypeId::of::<c_ulong>(), TypeId::of::<c_longlong>(), TypeId::of::<c_ulonglong>(), TypeId::of::<c_char8_t>(),
            TypeId::of::<c_char16_t>(), TypeId::of::<c_char32_t>(), TypeId::of::<c_wchar_t>(), TypeId::of::<c_nullptr_t>(),
            TypeId::of::<c_float>(), TypeId::of::<c_double>(), TypeId::of::<c_void>(),
        ];
        let (i, j): (usize, usize) = (kani::any(), kani::any());
        kani::assume(i < ids.len() && j < ids.len() && i != j);
        assert!(ids[i] != ids[j], "distinct C++ types are distinct Rust types");
        assert!(TypeId::of::<c_schar>() == TypeId::of::<i8>() && TypeId::of::<c_uchar>() == TypeId::of::<u8>(), "int8_t and uint8_t");
        assert!(TypeId::of::<c_short>() == TypeId::of::<i16>() && TypeId::of::<c_ushort>() == TypeId::of::<u16>(), "int16_t and uint16_t");
        assert!(TypeId::of::<c_int>() == TypeId::of::<i32>() && TypeId::of::<c_uint>() == TypeId::of::<u32>(), "int32_t and uint32_t");
        assert!(TypeId::of::<c_long>() == TypeId::of::<i64>() && TypeId::of::<c_ulong>() == TypeId::of::<u64>(), "int64_t and uint64_t on LP64 Linux");
    }
}

#[cfg(kani)]
mod pointers {
    use ffi_11::*;
    use core::ffi::CStr;

    #[kani::proof]
    fn casts_keep_the_address() {
        let a: usize = kani::any();
        let p = a as *const c_char;
        assert!(p.cast_ffi_11() as usize == a, "to core::ffi::c_char");
        let q = a as *const core::ffi::c_char;
        assert!(q.cast_ffi_11() as usize == a, "from core::ffi::c_char");
    }

    /// Bounded stand-in: strings of up to 4 bytes.
    #[kani::proof]
    #[kani::unwind(7)]
    fn b_cstr_round_trip() {
        let mut buf: [u8; 5] = kani::any();
        buf[4] = 0;
        let mut n = 0;
        while buf[n] != 0 { n += 1; }
        let c = CStr::from_bytes_with_nul(&buf[..n + 1]).unwrap();
        let p = c.as_ffi_11_ptr();
        assert!(p as usize == buf.as_ptr() as usize, "as_ffi_11_ptr is the address of the first byte");
        let d = unsafe { CStr::from_ffi_11_ptr(p) };
        assert!(d.to_bytes().len() == n && d.as_ptr() as usize == p as usize, "from_ffi_11_ptr rebuilds the same string");
        kani::cover!(n == 4, "MUST: longest");
    }
}
