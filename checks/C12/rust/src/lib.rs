//! Contracts of the reference types between the languages: which object they
//! denote, and that they never change it.
#![cfg_attr(not(kani), allow(unused))]

#[cfg(kani)]
mod payload {
    use core::marker::PhantomPinned;
    pub trait Any: Sized + PartialEq + Clone {
        fn any() -> Self;
    }
    macro_rules! plain { ($($t:ty),*) => {$( impl Any for $t { fn any() -> Self { kani::any() } } )*}}
    plain!(u8, u64, u128, (), [u16; 3], bool);
    #[derive(Clone, PartialEq)]
    #[repr(align(32))]
    pub struct Aligned(pub u8);
    impl Any for Aligned { fn any() -> Self { Aligned(kani::any()) } }
    #[derive(Clone, PartialEq)]
    pub struct Pinned(pub u32, pub PhantomPinned);
    impl Any for Pinned { fn any() -> Self { Pinned(kani::any(), PhantomPinned) } }
}

/// `CRef`/`CMut` over sized targets.
#[cfg(kani)]
mod refs {
    use super::payload::*;
    use cref::*;
    use core::mem::size_of;
    use core::pin::Pin;

    fn same<T: ?Sized>(a: *const T, b: *const T) -> bool { core::ptr::eq(a, b) }

    /// Every way to make and to leave a reference, for pinned targets.
    fn pinned<T: Any>() {
        assert!(size_of::<CRef<T>>() == size_of::<*const T>() && size_of::<CMut<T>>() == size_of::<*mut T>());
        assert!(size_of::<Option<CRef<T>>>() == size_of::<*const T>(), "never null");
        assert!(size_of::<Option<CMut<T>>>() == size_of::<*const T>(), "never null");
        let v = T::any();
        let w = T::any();
        let mut cell = v.clone();
        let p: *mut T = &mut cell;
        let c = p as *const T;
        unsafe {
            // from a pointer
            let r = CRef::from_ptr(c);
            assert!(same(CRef::as_ptr(r), c));
            assert!(same(CRef::as_ptr(r.clone()), c) && same(CRef::as_ptr(Clone::clone(&r)), c));
            assert!(same(&*CRef::unchanging(r), c));
            assert!(same(CMut::as_ptr(CRef::const_cast(r)), c));
            assert!(same(CRef::as_ptr(r.into_cref()), c));
            let m = CMut::from_ptr(p);
            assert!(same(CMut::as_ptr(m), c) && same(CMut::as_mut_ptr(m), c));
            assert!(same(CMut::as_ptr(m.clone()), c));
            assert!(same(CRef::as_ptr(CMut::into_const(m)), c));
            assert!(same(&*CMut::unchanging(m), c));
            assert!(same(&*CMut::unique(m), c));
            assert!(same(CRef::as_ptr(m.into_cref()), c));
            assert!(same(CMut::as_ptr(m.into_cmut()), c));
            // the representation is the pointer
            assert!(core::mem::transmute_copy::<CRef<T>, usize>(&r) == c as usize);
            assert!(core::mem::transmute_copy::<CMut<T>, usize>(&m) == c as usize);
            // from pinned references
            assert!(same(CRef::as_ptr(CRef::from_pin(Pin::new_unchecked(&*p))), c));
            assert!(same(CMut::as_ptr(CMut::from_pin(Pin::new_unchecked(&mut *p))), c));
            assert!(same(CRef::as_ptr(Pin::new_unchecked(&*p).into_cref()), c));
            assert!(same(CRef::as_ptr(Pin::new_unchecked(&mut *p).into_cref()), c));
            assert!(same(CMut::as_ptr(Pin::new_unchecked(&mut *p).into_cmut()), c));
            assert!(*p == v, "no conversion changes the target");
            // writes are visible through every reference
            let m = CMut::from_ptr(p);
            let r = CMut::into_const(m);
            Pin::get_unchecked_mut(CMut::unique(m)).clone_from(&w);
            assert!(*CRef::unchanging(r) == w && *p == w);
        }
        kani::cover!(true, "MUST: end");
    }
    fn unpinned<T: Any + Unpin>() {
        let v = T::any();
        let w = T::any();
        let mut cell = v.clone();
        let c: *const T = &cell;
        assert!(same(CRef::as_ptr(CRef::from_ref(&cell)), c));
        assert!(same(CMut::as_ptr(CMut::from_ref(&mut cell)), c));
        assert!(same(CRef::as_ptr((&cell).into_cref()), c));
        assert!(same(CRef::as_ptr((&mut cell).into_cref()), c));
        assert!(same(CMut::as_ptr((&mut cell).into_cmut()), c));
        assert!(same(unsafe { CMut::unpin_unique(CMut::from_ref(&mut cell)) }, c));
        assert!(cell == v);
        *unsafe { CMut::unpin_unique((&mut cell).into_cmut()) } = w.clone();
        assert!(cell == w);
        kani::cover!(true, "MUST: end");
    }
    macro_rules! sized { ($($n:ident $m:ident: $t:ty;)*) => {$(
        #[kani::proof] fn $n() { pinned::<$t>() }
        #[kani::proof] fn $m() { unpinned::<$t>() }
    )*}}
    sized! {
        pinned_u8 unpinned_u8: u8;
        pinned_u64 unpinned_u64: u64;
        pinned_u128 unpinned_u128: u128;
        pinned_array unpinned_array: [u16; 3];
        pinned_aligned unpinned_aligned: Aligned;
    }
    // The address of a local of size zero is not stable under Kani, so only the pointer side.
    #[kani::proof] fn pinned_unit() { pinned::<()>() }
    #[kani::proof] fn pinned_immovable() { pinned::<Pinned>() }

    /// `impl CRefLike` parameters, as generated code takes them.
    fn callee<'a>(r: cref::CRefTo!['a, u32], m: cref::CMutTo!['a, u32]) -> (*const u32, *const u32) {
        (CRef::as_ptr(r.into_cref()), CMut::as_ptr(m.into_cmut()))
    }
    #[kani::proof]
    fn call_through_macros() {
        let mut a: u32 = kani::any();
        let mut b: u32 = kani::any();
        let (pa, pb) = (&raw const a, &raw const b);
        assert!(callee(&a, &mut b) == (pa, pb));
        assert!(callee(&mut a, Pin::new(&mut b)) == (pa, pb));
        assert!(callee(CRef::from_ref(&a), CMut::from_ref(&mut b)) == (pa, pb));
        assert!(callee(CMut::from_ref(&mut a), &mut b) == (pa, pb));
        assert!(callee(Pin::new(&a), &mut b) == (pa, pb));
        // A shared mutable reference may be used for both at once.
        let m = CMut::from_ref(&mut b);
        assert!(callee(m, m) == (pb, pb));
    }
    #[kani::proof]
    fn usable_in_constants() {
        static X: u32 = 7;
        const R: CRef<'static, u32> = CRef::from_ref(&X);
        assert!(same(CRef::as_ptr(R), &raw const X));
        const fn through<'a>(p: Pin<&'a u32>) -> *const u32 { CRef::as_ptr(CRef::from_pin(p)) }
        assert!(same(through(Pin::static_ref(&X)), &raw const X));
    }
}

/// Unsized targets: the length or the vtable travels along.
#[cfg(kani)]
mod wide {
    use cref::*;
    use core::pin::Pin;
    #[kani::proof]
    fn slice() {
        let mut a: [u16; 4] = kani::any();
        let from: usize = kani::any();
        let to: usize = kani::any();
        kani::assume(from <= to && to <= 4);
        let s = &mut a[from..to];
        let (p, n) = (s.as_ptr(), s.len());
        let m = CMut::from_ref(s);
        let r = CMut::into_const(m);
        unsafe {
            assert!(CRef::as_ptr(r).cast::<u16>() == p && CRef::as_ptr(r).len() == n);
            assert!(CRef::unchanging(r).len() == n && CMut::unpin_unique(m).len() == n);
            assert!(CRef::unchanging(m.into_cref()).as_ptr() == p && CMut::unchanging(m.into_cmut()).len() == n);
            if n > 0 { CMut::unpin_unique(m)[0] = 9; }
        }
        if n > 0 { assert!(a[from] == 9); }
        assert!(core::mem::size_of::<Option<CRef<[u16]>>>() == core::mem::size_of::<&[u16]>());
        kani::cover!(n == 0, "MUST: empty");
        kani::cover!(n == 4, "MUST: everything");
    }
    trait Speak { fn say(&self) -> u32; }
    struct A(u32);
    struct B(u32);
    impl Speak for A { fn say(&self) -> u32 { self.0 } }
    impl Speak for B { fn say(&self) -> u32 { !self.0 } }
    #[kani::proof]
    fn trait_object() {
        let v: u32 = kani::any();
        let (a, b) = (A(v), B(v));
        let pick: bool = kani::any();
        let d: Pin<&dyn Speak> = unsafe { if pick { Pin::new_unchecked(&a) } else { Pin::new_unchecked(&b) } };
        let r = CRef::from_pin(d);
        assert!(unsafe { CRef::unchanging(r) }.say() == if pick { v } else { !v });
        assert!(unsafe { CRef::unchanging(r.into_cref()) }.say() == if pick { v } else { !v });
        kani::cover!(pick, "MUST: one");
        kani::cover!(!pick, "MUST: other");
    }
}

/// Upcasts.
#[cfg(kani)]
mod upcast {
    use oops::*;
    use core::marker::PhantomPinned;
    use core::pin::Pin;
    #[derive(Clone, PartialEq)]
    struct Top(u32);
    #[derive(Clone, PartialEq)]
    struct Left(u8, Top);
    #[derive(Clone)]
    struct Bottom { first: Left, padding: u64, second: Right }
    #[derive(Clone)]
    struct Right(u64, PhantomPinned);
    unsafe impl Inherits<Top> for Left {
        unsafe fn upcast_ptr(p: *const Self) -> *const Top {
            if p.is_null() { core::ptr::null() } else { unsafe { &raw const (*p).1 } }
        }
    }
    unsafe impl Inherits<Left> for Bottom {
        unsafe fn upcast_ptr(p: *const Self) -> *const Left {
            if p.is_null() { core::ptr::null() } else { unsafe { &raw const (*p).first } }
        }
    }
    unsafe impl Inherits<Right> for Bottom {
        unsafe fn upcast_ptr(p: *const Self) -> *const Right {
            if p.is_null() { core::ptr::null() } else { unsafe { &raw const (*p).second } }
        }
    }
    impl Unpin for Bottom {}
    fn any_bottom() -> Bottom {
        Bottom { first: Left(kani::any(), Top(kani::any())), padding: kani::any(), second: Right(kani::any(), PhantomPinned) }
    }
    #[kani::proof]
    fn shared() {
        let d = any_bottom();
        let l: &Left = (&d).upcast();
        assert!(core::ptr::eq(l, &d.first));
        let r: &Right = (&d).upcast();
        assert!(core::ptr::eq(r, &d.second));
        let t: &Top = l.upcast();
        assert!(core::ptr::eq(t, &d.first.1) && *t == d.first.1);
        let s: &Bottom = (&d).upcast();
        assert!(core::ptr::eq(s, &d));
        kani::cover!(true, "MUST: end");
    }
    #[kani::proof]
    fn mutable() {
        let mut d = any_bottom();
        let (pl, pr, pd) = (&raw const d.first, &raw const d.second, &raw const d);
        let l: Pin<&mut Left> = Pin::new(&mut d).upcast();
        assert!(core::ptr::eq(&*l, pl));
        let l: Pin<&mut Left> = (&mut d).upcast();
        assert!(core::ptr::eq(&*l, pl));
        let l: &mut Left = (&mut d).upcast();
        assert!(core::ptr::eq(l, pl));
        let r: Pin<&mut Right> = (&mut d).upcast();
        assert!(core::ptr::eq(&*r, pr));
        let r: Pin<&mut Right> = Pin::new(&mut d).upcast();
        assert!(core::ptr::eq(&*r, pr));
        let s: &mut Bottom = (&mut d).upcast();
        assert!(core::ptr::eq(s, pd));
        let s: Pin<&mut Bottom> = Pin::new(&mut d).upcast();
        assert!(core::ptr::eq(&*s, pd));
        // writes reach the derived object, and nothing else in it
        let x: u32 = kani::any();
        let before = d.clone();
        let l: &mut Left = (&mut d).upcast();
        let t: &mut Top = l.upcast();
        t.0 = x;
        assert!(d.first.1.0 == x && d.first.0 == before.first.0 && d.padding == before.padding && d.second.0 == before.second.0);
        kani::cover!(true, "MUST: end");
    }
    #[kani::proof]
    fn pointers() {
        let mut d = any_bottom();
        let null: bool = kani::any();
        let c: *const Bottom = if null { core::ptr::null() } else { &raw const d };
        let m: *mut Bottom = if null { core::ptr::null_mut() } else { &raw mut d };
        let want_l: *const Left = if null { core::ptr::null() } else { &raw const d.first };
        let want_r: *const Right = if null { core::ptr::null() } else { &raw const d.second };
        unsafe {
            let l: *const Left = c.unsafe_upcast();
            assert!(l == want_l);
            let l: *mut Left = m.unsafe_upcast();
            assert!(l as *const _ == want_l);
            let r: *const Right = c.unsafe_upcast();
            assert!(r == want_r);
            let r: *mut Right = m.unsafe_upcast();
            assert!(r as *const _ == want_r);
            let s: *const Bottom = c.unsafe_upcast();
            assert!(s == c);
            let s: *mut Bottom = m.unsafe_upcast();
            assert!(s == m);
            assert!(<Bottom as Inherits<Left>>::upcast_ptr_mut(m) as *const Left == want_l);
            assert!(<Bottom as Inherits<Bottom>>::upcast_ptr(c) == c);
            assert!(<Bottom as Inherits<Bottom>>::upcast_ptr_mut(m) == m);
        }
        kani::cover!(null, "MUST: null");
        kani::cover!(!null, "MUST: object");
    }
    /// A class may treat mutable objects on its own (a virtual base, say).
    struct Virtual { shared: Top, own: Top }
    unsafe impl Inherits<Top> for Virtual {
        unsafe fn upcast_ptr(p: *const Self) -> *const Top { unsafe { &raw const (*p).shared } }
        unsafe fn upcast_ptr_mut(p: *mut Self) -> *mut Top { unsafe { &raw mut (*p).own } }
    }
    #[kani::proof]
    fn mutable_upcasts_are_the_class_s_own() {
        let mut v = Virtual { shared: Top(1), own: Top(2) };
        let (ps, po) = (&raw const v.shared, &raw const v.own);
        let t: &Top = (&v).upcast();
        assert!(core::ptr::eq(t, ps));
        let t: &mut Top = (&mut v).upcast();
        assert!(core::ptr::eq(t, po));
        let t: Pin<&mut Top> = (&mut v).upcast();
        assert!(core::ptr::eq(&*t, po));
        let t: Pin<&mut Top> = Pin::new(&mut v).upcast();
        assert!(core::ptr::eq(&*t, po));
        let t: *const Top = unsafe { (&raw const v).unsafe_upcast() };
        assert!(t == ps);
        let t: *mut Top = unsafe { (&raw mut v).unsafe_upcast() };
        assert!(t as *const _ == po);
    }
}

#[cfg(kani)]
mod casts {
    use decltype_cast::decltype_cast;
    #[kani::proof]
    fn keeps_the_pointer() {
        let p: usize = kani::any();
        let q: *mut u64 = decltype_cast(|| -> u64 { panic!("must not be called") }, core::ptr::without_provenance_mut(p));
        assert!(q as usize == p);
        let mut x: u32 = kani::any();
        let r = decltype_cast(|| 0u32, (&raw mut x).cast());
        unsafe { *r = 5 };
        assert!(x == 5 && core::ptr::eq(r, &raw mut x));
        kani::cover!(p == 0, "MUST: null");
        kani::cover!(true, "MUST: end");
    }
}
