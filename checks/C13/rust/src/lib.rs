//! Contracts of in-place construction: a value is constructed exactly where it
//! will live, is never moved, and is destroyed there exactly once.
#![feature(negative_impls)]
#![allow(unused)]

#[cfg(kani)]
mod model {
    use ctor::*;
    use core::pin::Pin;

    /// Ghost ledger.
    pub static mut LIVE: (i32, u64) = (0, 0x5EED0014);
    pub static mut MADE: (i32, u64) = (0, 0x5EED0015);
    pub static mut DROPPED: (i32, u64) = (0, 0x5EED0016);
    pub fn live() -> i32 { unsafe { LIVE.0 } }
    pub fn made() -> i32 { unsafe { MADE.0 } }
    pub fn dropped() -> i32 { unsafe { DROPPED.0 } }

    /// An immovable object that knows where it was constructed.
    pub struct Obj { me: *const Obj, pub v: u32 }
    impl !Unpin for Obj {}
    impl Obj {
        pub fn at_home(&self) -> bool { core::ptr::eq(self.me, self) }
    }
    impl Drop for Obj {
        fn drop(&mut self) {
            assert!(core::ptr::eq(self.me, self), "an object is destroyed where it was constructed, once");
            self.me = core::ptr::null();
            unsafe { LIVE.0 -= 1; DROPPED.0 += 1; }
        }
    }
    unsafe fn make(dest: *mut Obj, v: u32) {
        unsafe { dest.write(Obj { me: dest, v }); LIVE.0 += 1; MADE.0 += 1; }
    }
    /// Constructs an Obj holding v, or fails with the error.
    pub struct Try { pub v: u32, pub fail: Option<u16> }
    impl !SelfCtor for Try {}
    unsafe impl Ctor for Try {
        type Output = Obj;
        type Error = u16;
        unsafe fn ctor(self, dest: *mut Obj) -> Result<(), u16> {
            match self.fail { Some(e) => Err(e), None => { unsafe { make(dest, self.v) }; Ok(()) } }
        }
    }
    pub struct Make(pub u32);
    impl !SelfCtor for Make {}
    unsafe impl Ctor for Make {
        type Output = Obj;
        type Error = Infallible;
        unsafe fn ctor(self, dest: *mut Obj) -> Result<(), Infallible> { unsafe { make(dest, self.0) }; Ok(()) }
    }
    impl CtorNew<()> for Obj {
        type CtorType = Make;
        type Error = Infallible;
        fn ctor_new(_: ()) -> Make { Make(77) }
    }
    impl<'a> CtorNew<&'a Obj> for Obj {
        type CtorType = Make;
        type Error = Infallible;
        fn ctor_new(o: &'a Obj) -> Make { assert!(o.at_home()); Make(o.v) }
    }
    impl<'a> CtorNew<RvalueReference<'a, Obj>> for Obj {
        type CtorType = Make;
        type Error = Infallible;
        fn ctor_new(o: RvalueReference<'a, Obj>) -> Make {
            let mut o = o;
            assert!(o.get_ref().at_home());
            let v = o.get_ref().v;
            unsafe { o.as_mut().get_unchecked_mut().v = 0 };
            Make(v)
        }
    }
    impl<'a> CtorNew<ConstRvalueReference<'a, Obj>> for Obj {
        type CtorType = Make;
        type Error = Infallible;
        fn ctor_new(mut o: ConstRvalueReference<'a, Obj>) -> Make { Make(!o.get_ref().v) }
    }
    pub fn any_try() -> Try { Try { v: kani::any(), fail: kani::any() } }
    pub fn done() { assert!(live() == 0 && made() == dropped(), "everything that was constructed is destroyed exactly once"); }
}

/// What a combinator yields, and that failure leaves nothing behind.
#[cfg(kani)]
mod combinators {
    use super::model::*;
    use ctor::*;
    use core::pin::Pin;

    /// Runs a fallible ctor into fresh storage and checks the outcome.
    trait Code { fn code(self) -> u64; }
    impl Code for u16 { fn code(self) -> u64 { self as u64 } }
    impl Code for u64 { fn code(self) -> u64 { self } }
    impl Code for Infallible { fn code(self) -> u64 { match self {} } }
    fn yields<C: Ctor<Output = Obj>>(c: C, want: Result<u32, u64>) where C::Error: Code {
        let before = live();
        match Box::try_emplace(c) {
            Ok(b) => {
                assert!(b.at_home(), "constructed in place");
                assert!(want == Ok(b.v), "the specified value");
                assert!(live() == before + 1, "exactly one object");
                            }
            Err(e) => {
                assert!(want == Err(e.code()), "the specified error");
                assert!(live() == before, "a failed construction leaves nothing behind");
            }
        }
        done();
    }
    #[kani::proof]
    fn make_fallible() { let v = kani::any(); yields(Make(v).ctor_make_fallible::<u16>(), Ok(v)); }
    #[kani::proof]
    fn err_into() {
        let t = any_try();
        let want = match t.fail { Some(e) => Err(e as u64), None => Ok(t.v) };
        kani::cover!(t.fail.is_some(), "MUST: failure");
        yields(t.ctor_err_into::<u64>(), want);
    }
    #[kani::proof]
    fn map_err() {
        let t = any_try();
        let k: u64 = kani::any();
        let want = match t.fail { Some(e) => Err(k ^ e as u64), None => Ok(t.v) };
        kani::cover!(t.fail.is_some(), "MUST: failure");
        yields(t.ctor_map_err(|e| k ^ e as u64), want);
    }
    #[kani::proof]
    fn then() {
        let t = any_try();
        let second: Option<u16> = kani::any();
        let w: u32 = kani::any();
        let want = match (t.fail, second) { (Some(e), _) => Err(e as u64), (None, Some(e)) => Err(e as u64), _ => Ok(w) };
        let (v, first) = (t.v, t.fail);
        let mut calls = 0;
        kani::cover!(first.is_some(), "MUST: the construction fails");
        kani::cover!(first.is_none() && second.is_some(), "MUST: the continuation fails");
        yields(t.ctor_then(|p: Pin<&mut Obj>| {
            calls += 1;
            assert!(p.at_home() && p.v == v && live() == 1, "the continuation sees the constructed object in place");
            unsafe { p.get_unchecked_mut().v = w };
            match second { Some(e) => Err(e), None => Ok(()) }
        }), want);
        assert!(calls == first.is_none() as u32, "the continuation runs once, after success only");
    }
    #[kani::proof]
    fn or_else() {
        let (a, b) = (any_try(), any_try());
        let want = match (a.fail, b.fail) { (None, _) => Ok(a.v), (Some(_), None) => Ok(b.v), (_, Some(e)) => Err(e as u64) };
        let (first, mut calls) = (a.fail, 0);
        kani::cover!(a.fail.is_some() && b.fail.is_some(), "MUST: both fail");
        kani::cover!(a.fail.is_some() && b.fail.is_none(), "MUST: the alternative succeeds");
        yields(a.ctor_or_else(|e| { calls += 1; assert!(Some(e) == first); b }), want);
        assert!(calls == first.is_some() as u32, "the alternative is asked for once, after failure only");
    }
    #[kani::proof]
    fn unwrap_or_default() {
        let t = any_try();
        let want = if t.fail.is_some() { 77 } else { t.v };
        kani::cover!(t.fail.is_some(), "MUST: failure");
        yields(t.ctor_unwrap_or_default(), Ok(want));
    }
    #[kani::proof]
    fn unwrap_and_expect_of_success() {
        let (v, w) = (kani::any(), kani::any());
        yields(Try { v, fail: None }.ctor_unwrap(), Ok(v));
        yields(Try { v: w, fail: None }.ctor_expect("reason"), Ok(w));
    }
    #[kani::proof]
    fn error() {
        let e: u16 = kani::any();
        yields(ctor_error::<Obj, u16>(e), Err(e as u64));
        assert!(made() == 0);
        kani::cover!(true, "MUST: end");
    }
    #[kani::proof]
    fn nested() {
        let (a, b) = (any_try(), any_try());
        let end: Option<u16> = kani::any();
        let w: u32 = kani::any();
        let want = match (a.fail, b.fail, end) {
            (Some(_), Some(e), _) => Err(!e as u64),
            (_, _, Some(e)) => Err(!e as u64),
            _ => Ok(w),
        };
        kani::cover!(end.is_some() && a.fail.is_none(), "MUST: late failure");
        yields(a.ctor_or_else(|_| b).ctor_then(|p| { unsafe { p.get_unchecked_mut().v = w }; end.map_or(Ok(()), Err) }).ctor_map_err(|e| !e as u64), want);
    }
}

/// Storage.
#[cfg(kani)]
mod storage {
    use super::model::*;
    use ctor::*;
    use core::pin::Pin;
    use core::mem::ManuallyDrop;
    use std::rc::Rc;
    use std::sync::Arc;

    fn owned<P: Emplace<Obj> + core::ops::Deref<Target = Obj>>() {
        let v: u32 = kani::any();
        {
            let p: Pin<P> = P::emplace(Make(v));
            assert!(p.at_home() && p.v == v && live() == 1);
        }
        done();
        let t = any_try();
        let (w, fail) = (t.v, t.fail);
        {
            let r: Result<Pin<P>, u16> = P::try_emplace(t);
            match &r {
                Ok(p) => assert!(fail.is_none() && p.at_home() && p.v == w && live() == 1),
                Err(e) => assert!(fail == Some(*e) && live() == 0),
            }
        }
        done();
        kani::cover!(fail.is_none(), "MUST: success");
        kani::cover!(fail.is_some(), "MUST: failure");
    }
    #[kani::proof] fn boxed() { owned::<Box<Obj>>() }
    #[kani::proof] fn rc() { owned::<Rc<Obj>>() }
    #[kani::proof] fn arc() { owned::<Arc<Obj>>() }
    #[kani::proof]
    fn shared_ownership() {
        let p = Rc::emplace(Make(3));
        let q = p.clone();
        drop(p);
        assert!(live() == 1 && q.at_home());
        drop(q);
        done();
        let p = Arc::emplace(Make(3));
        let q = p.clone();
        drop(p);
        assert!(live() == 1 && q.at_home());
        drop(q);
        done();
    }
    #[kani::proof]
    fn local() {
        let v: u32 = kani::any();
        {
            let x = emplace!(Make(v));
            assert!(x.at_home() && x.v == v && live() == 1);
            let y = copy(&*x);
            let y = emplace!(y);
            assert!(y.at_home() && y.v == v && live() == 2);
        }
        done();
    }
    #[kani::proof]
    fn local_fallible() {
        let t = any_try();
        let (v, fail) = (t.v, t.fail);
        {
            let r = try_emplace!(t);
            match &r {
                Ok(p) => assert!(fail.is_none() && p.at_home() && p.v == v && live() == 1),
                Err(e) => assert!(fail == Some(*e) && live() == 0),
            }
        }
        done();
        kani::cover!(fail.is_none(), "MUST: success");
        kani::cover!(fail.is_some(), "MUST: failure");
    }
    #[kani::proof]
    fn construct_by_value() {
        let v: u64 = kani::any();
        assert!(construct(v) == v);
        let b = construct(Box::new(v));
        assert!(*b == v);
        let c = construct(RustMoveCtor::new(b));
        assert!(*c == v);
        assert!(construct(u64::ctor_new(())) == 0);
        assert!(construct(copy(&v)) == v && construct(u64::ctor_new(&v)) == v);
        assert!(construct(unsafe { FnCtor::new(|d: *mut u64| d.write(v)) }) == v);
    }
    #[kani::proof]
    fn manually_drop() {
        let v: u32 = kani::any();
        {
            let mut x: Pin<Box<ManuallyDrop<Obj>>> = Box::emplace(ManuallyDropCtor::new(Make(v)));
            assert!(x.at_home() && x.v == v && live() == 1);
            let y = unsafe { x.as_mut().get_unchecked_mut() };
            unsafe { ManuallyDrop::drop(y) };
            assert!(live() == 0);
        }
        done();
        { let _x = Box::emplace(ManuallyDropCtor::new(Make(v))); }
        assert!(live() == 1, "not destroyed");
        let t = any_try();
        let fail = t.fail;
        assert!(Box::try_emplace(ManuallyDropCtor::new(t)).err() == fail);
    }
    /// A value whose type is movable is moved in, and owned from then on.
    struct Plain(u32);
    impl Drop for Plain { fn drop(&mut self) { unsafe { LIVE.0 -= 1; DROPPED.0 += 1 } } }
    fn plain(v: u32) -> Plain { unsafe { LIVE.0 += 1; MADE.0 += 1 }; Plain(v) }
    #[kani::proof]
    fn movable_values() {
        let v: u32 = kani::any();
        {
            let b = Box::emplace(plain(v));
            assert!(b.0 == v && live() == 1 && dropped() == 0);
            let c: Result<_, u16> = Rc::try_emplace(RustMoveCtor::new(plain(!v)));
            assert!(c.unwrap().0 == !v && live() == 1);
            let d = construct(plain(v));
            assert!(d.0 == v && live() == 2);
            let e = emplace!(plain(v));
            assert!(e.0 == v && live() == 3);
        }
        done();
    }
    /// The guard of an initialized field destroys it, unless it is forgotten.
    #[kani::proof]
    fn field_guards() {
        let v: u32 = kani::any();
        let mut m = core::mem::MaybeUninit::<Obj>::uninit();
        let g = unsafe { macro_internal::init_field(m.as_mut_ptr(), Make(v)) };
        assert!(live() == 1 && unsafe { (*m.as_ptr()).v } == v && unsafe { (*m.as_ptr()).at_home() });
        if kani::any() {
            drop(g);
            assert!(live() == 0);
        } else {
            core::mem::forget(g);
            assert!(live() == 1);
            unsafe { m.assume_init_drop() };
        }
        done();
    }
    /// A ctor that is never emplaced constructs nothing, but is itself destroyed.
    #[kani::proof]
    fn unused() {
        { let _ = Make(1).ctor_make_fallible::<u16>().ctor_then(|_| Ok(())); }
        assert!(made() == 0);
        { let _ = RustMoveCtor::<_, Infallible>::new(plain(1)); }
        done();
    }
    #[kani::proof]
    fn unreachable_must_panic() {
        let _ = Box::emplace(UnreachableCtor::<Obj>::new());
        kani::cover!(true, "NEVER: control returns from an unreachable ctor");
    }
    #[kani::proof]
    fn unwrap_of_failure_must_panic() {
        let _ = Box::emplace(ctor_error::<u8, u8>(kani::any()).ctor_unwrap());
        kani::cover!(true, "NEVER: control returns from a failed unwrap");
    }
    #[kani::proof]
    fn expect_of_failure_must_panic() {
        let _ = Box::emplace(ctor_error::<u8, u8>(kani::any()).ctor_expect("reason"));
        kani::cover!(true, "NEVER: control returns from a failed expect");
    }
}

/// Slot: one inductive step of every operation, from both states.
#[cfg(kani)]
mod slot {
    use super::model::*;
    use ctor::*;
    use core::pin::Pin;

    fn state(s: &Slot<Obj>, want: Option<u32>) {
        match (s.as_opt(), want) {
            (Some(o), Some(v)) => assert!(o.at_home() && o.v == v, "the slot holds the specified value"),
            (None, None) => {}
            _ => assert!(false, "the slot is full exactly when specified"),
        }
    }
    /// A slot in an arbitrary state.
    fn any_slot(full: Option<u32>) -> Pin<Box<Slot<Obj>>> {
        let mut s = Box::emplace(Slot::<Obj>::uninit());
        state(&s, None);
        if let Some(v) = full { s.as_mut().replace(Make(v)); }
        state(&s, full);
        assert!(live() == full.is_some() as i32);
        s
    }
    #[kani::proof]
    fn clear() {
        let full: Option<u32> = kani::any();
        let mut s = any_slot(full);
        s.as_mut().clear();
        state(&s, None);
        assert!(live() == 0);
        s.as_mut().clear();
        state(&s, None);
        drop(s);
        done();
        kani::cover!(full.is_some(), "MUST: full");
    }
    #[kani::proof]
    fn replace() {
        let full: Option<u32> = kani::any();
        let mut s = any_slot(full);
        let v: u32 = kani::any();
        {
            let p = s.as_mut().replace(Make(v));
            assert!(p.at_home() && p.v == v);
        }
        state(&s, Some(v));
        assert!(live() == 1 && dropped() == full.is_some() as i32, "the old value is destroyed");
        drop(s);
        done();
        kani::cover!(full.is_some(), "MUST: full");
        kani::cover!(full.is_none(), "MUST: empty");
    }
    #[kani::proof]
    fn try_replace() {
        let full: Option<u32> = kani::any();
        let mut s = any_slot(full);
        let t = any_try();
        let (v, fail) = (t.v, t.fail);
        match s.as_mut().try_replace(t) {
            Ok(p) => assert!(fail.is_none() && p.at_home() && p.v == v),
            Err(e) => assert!(fail == Some(e)),
        }
        state(&s, if fail.is_none() { Some(v) } else { None });
        assert!(live() == fail.is_none() as i32);
        drop(s);
        done();
        kani::cover!(full.is_some() && fail.is_some(), "MUST: failure replaces a value");
        kani::cover!(full.is_none() && fail.is_none(), "MUST: success in an empty slot");
    }
    #[kani::proof]
    fn access() {
        let full: Option<u32> = kani::any();
        let w: u32 = kani::any();
        let mut s = any_slot(full);
        match s.as_mut().as_opt_mut() {
            Some(p) => { assert!(full == Some(p.v) && p.at_home()); unsafe { p.get_unchecked_mut().v = w }; }
            None => assert!(full.is_none()),
        }
        state(&s, full.map(|_| w));
        drop(s);
        done();
        kani::cover!(full.is_some(), "MUST: full");
        kani::cover!(full.is_none(), "MUST: empty");
    }
    #[kani::proof]
    fn construction() {
        let t = any_try();
        let (v, fail) = (t.v, t.fail);
        {
            match Box::try_emplace(Slot::new(t)) {
                Ok(s) => { assert!(fail.is_none()); state(&s, Some(v)); assert!(live() == 1); }
                Err(e) => assert!(fail == Some(e) && live() == 0),
            }
        }
        done();
        {
            let s = emplace!(Slot::new(Make(v)));
            state(&s, Some(v));
        }
        done();
        kani::cover!(fail.is_some(), "MUST: failure");
        kani::cover!(fail.is_none(), "MUST: success");
    }
    #[kani::proof]
    fn hidden_interface() {
        let t = any_try();
        let (v, fail) = (t.v, t.fail);
        {
            let mut s = Slot::<Obj>::unsafe_new();
            match s.try_unsafe_construct(t) {
                Ok(p) => assert!(fail.is_none() && p.at_home() && p.v == v),
                Err(e) => assert!(fail == Some(e)),
            }
            state(&s, if fail.is_none() { Some(v) } else { None });
        }
        done();
        {
            let mut s = Slot::<Obj>::unsafe_new();
            assert!(s.unsafe_construct(Make(v)).unsafe_as_pin_unchecked().at_home());
            state(&s, Some(v));
        }
        done();
    }
    /// While a value is being destroyed it no longer counts as the slot's: a panic
    /// in its destructor must not make the slot destroy it again.
    struct Watch(*const Slot<Watch>, *mut u32);
    impl Drop for Watch {
        fn drop(&mut self) {
            unsafe { *self.1 += 1; }
            assert!(unsafe { &*self.0 }.as_opt().is_none(), "a value that is being destroyed is no longer in the slot");
        }
    }
    #[kani::proof]
    fn destruction_is_not_reentrant() {
        let mut n = 0;
        let mut s = Box::emplace(Slot::<Watch>::uninit());
        let p: *const Slot<Watch> = &*s;
        s.as_mut().replace(RustMoveCtor::new(Watch(p, &raw mut n)));
        match kani::any::<u8>() {
            0 => s.as_mut().clear(),
            1 => { s.as_mut().replace(RustMoveCtor::new(Watch(p, &raw mut n))); assert!(n == 1); s.as_mut().clear(); n -= 1; }
            2 => { assert!(s.as_mut().try_replace(ctor_error::<Watch, u8>(1)).is_err()); }
            _ => drop(s),
        }
        assert!(n == 1, "destroyed once");
    }
}

/// Copying, moving and assigning.
#[cfg(kani)]
mod transfer {
    use super::model::*;
    use ctor::*;
    use core::pin::Pin;
    #[kani::proof]
    fn copies() {
        let v: u32 = kani::any();
        {
            let a = Box::emplace(Make(v));
            let b = Box::emplace(copy(&*a));
            let c = Box::emplace(copy(a.as_ref()));
            assert!(a.v == v && b.v == v && c.v == v && a.at_home() && b.at_home() && c.at_home() && live() == 3);
            // a copy out of an owner destroys the owner afterwards
            let d = Box::emplace(copy(a));
            assert!(d.v == v && live() == 3);
        }
        done();
    }
    #[kani::proof]
    fn moves() {
        let v: u32 = kani::any();
        {
            let mut a = Box::emplace(Make(v));
            let b = Box::emplace(mov!(a));
            assert!(a.v == 0 && b.v == v && a.at_home() && b.at_home() && live() == 2, "moved out of, not destroyed");
            let mut c = emplace!(Make(v));
            let d = emplace!(mov!(c.as_mut()));
            assert!(c.v == 0 && d.v == v && live() == 4);
            let e = Box::emplace(ConstRvalueReference(&*d));
            assert!(d.v == v && e.v == !v);
            let k = Box::emplace(const_mov!(&*d));
            assert!(d.v == v && k.v == !v);
            let mut f = Box::emplace(Make(v));
            let g = Box::emplace(ByValue(mov!(f)));
            assert!(f.v == 0 && g.v == v);
        }
        done();
    }
    #[kani::proof]
    fn references() {
        let v: u32 = kani::any();
        let mut a = Box::emplace(Make(v));
        let p: *const Obj = &*a;
        let mut r = mov!(a);
        assert!(core::ptr::eq(r.get_ref(), p) && core::ptr::eq(&*r, p) && core::ptr::eq(&*r.as_mut(), p));
        assert!(core::ptr::eq(r.as_const().get_ref(), p) && core::ptr::eq(&*r.as_const(), p));
        assert!(core::ptr::eq(&*ByValue(r), p));
        assert!(core::ptr::eq(const_mov!(&*a).get_ref(), p));
        let mut x = 5u32;
        { let mut y = &mut x; let mut r = mov!(y); *r.as_mut() = v; }
        assert!(x == v);
    }
    #[kani::proof]
    fn assignment_of_rust_types() {
        let (v, w): (u64, u64) = (kani::any(), kani::any());
        let mut a = Box::pin(v);
        a.as_mut().assign(&w);
        assert!(*a == w);
        a.as_mut().assign(copy(&v));
        assert!(*a == v);
        let mut o = Box::pin(Box::new(v));
        let src = Box::new(w);
        o.as_mut().assign(&src);
        assert!(**o == w && *src == w);
        o.as_mut().assign(copy(&src));
        assert!(**o == w && *src == w);
    }
    #[derive(Clone, Copy, PartialEq, MoveAndAssignViaCopy)]
    struct Val { a: u8, b: u64 }
    #[kani::proof]
    fn move_and_assign_via_copy() {
        let mut x = Val { a: kani::any(), b: kani::any() };
        let (mut y, y0) = { let y = Val { a: kani::any(), b: kani::any() }; (y, y) };
        let x0 = x;
        let c = construct(Val::ctor_new(mov!(&mut x)));
        assert!(c == x0 && x == x0);
        let f: Val = mov!(&mut x).into();
        assert!(f == x0 && x == x0);
        y.unpin_assign(&x);
        assert!(y == x0);
        let mut z = y0;
        z.unpin_assign(mov!(&mut x));
        assert!(z == x0 && x == x0);
        let mut q = y0;
        Pin::new(&mut q).assign(&x);
        assert!(q == x0);
        let mut q = y0;
        Pin::new(&mut q).assign(mov!(&mut x));
        assert!(q == x0);
    }
    #[kani::proof]
    fn reconstruction() {
        let (v, w): (u32, u32) = (kani::any(), kani::any());
        {
            let mut a = Box::emplace(Make(v));
            unsafe { reconstruct(a.as_mut(), Make(w)) };
            assert!(a.at_home() && a.v == w && live() == 1 && dropped() == 1 && made() == 2);
        }
        done();
    }
}

/// Aggregates.
#[cfg(kani)]
mod aggregates {
    use super::model::*;
    use ctor::*;
    use core::pin::Pin;
    use core::mem::MaybeUninit;

    static mut ORDER: ([u8; 4], u64) = ([0; 4], 0x5EED0017);
    static mut AT: (usize, u64) = (0, 0x5EED0018);
    fn note(k: u8) { unsafe { ORDER.0[AT.0] = k; AT.0 += 1; } }
    fn noted() -> [u8; 4] { unsafe { ORDER.0 } }

    #[recursively_pinned]
    struct Three { a: Obj, b: u16, c: Obj }
    fn loud(k: u8, v: u32) -> impl Ctor<Output = Obj, Error = Infallible> {
        Make(v).ctor_then(move |_| { note(k); Ok(()) })
    }
    #[kani::proof]
    fn structs() {
        let (x, z): (u32, u32) = (kani::any(), kani::any());
        let y: u16 = kani::any();
        {
            let p = emplace!(ctor!(Three { c: loud(1, z), b: y, a: loud(2, x) }));
            assert!(p.a.at_home() && p.c.at_home() && p.a.v == x && p.b == y && p.c.v == z && live() == 2);
            assert!(noted() == [1, 2, 0, 0], "fields are constructed in the order written");
        }
        done();
        {
            let from = emplace!(Make(z));
            let p = Box::emplace(ctor!(Three { a: Make(x), b: y, c: copy(&*from) }));
            assert!(p.a.v == x && p.b == y && p.c.v == z && live() == 3);
        }
        done();
    }
    #[recursively_pinned]
    struct Pair<T>(T, Obj);
    #[recursively_pinned]
    struct Empty;
    #[recursively_pinned]
    struct Outer { first: Pair<u8>, second: Obj }
    #[kani::proof]
    fn tuples_and_nesting() {
        let (x, z): (u32, u32) = (kani::any(), kani::any());
        let y: u8 = kani::any();
        {
            let p = emplace!(ctor!(Pair::<u8>(y, Make(x))));
            assert!(p.0 == y && p.1.v == x && p.1.at_home());
            let q = emplace!(ctor!(Pair::<u8> { 1: Make(x), 0: y }));
            assert!(q.0 == y && q.1.v == x && q.1.at_home());
            let o = emplace!(ctor!(Outer { first: ctor!(Pair::<u8>(y, Make(x))), second: Make(z) }));
            assert!(o.first.0 == y && o.first.1.at_home() && o.first.1.v == x && o.second.at_home() && o.second.v == z);
            assert!(live() == 4);
            let _e = emplace!(ctor!(Empty));
            let _e = emplace!(ctor!(Empty {}));
        }
        done();
    }
    #[kani::proof]
    fn projections() {
        let (x, z): (u32, u32) = (kani::any(), kani::any());
        {
            let mut p = Box::emplace(ctor!(Three { a: Make(x), b: 1, c: Make(z) }));
            let (pa, pb, pc) = (&raw const p.a, &raw const p.b, &raw const p.c);
            {
                let r = p.as_ref().project_ref();
                assert!(core::ptr::eq(&*r.a, pa) && core::ptr::eq(&*r.b, pb) && core::ptr::eq(&*r.c, pc));
            }
            {
                let mut m = p.as_mut().project_pin();
                assert!(core::ptr::eq(&*m.a, pa) && core::ptr::eq(&*m.b, pb) && core::ptr::eq(&*m.c, pc));
                m.b.set(7);
                unsafe { m.c.get_unchecked_mut().v = 9 };
            }
            assert!(p.a.v == x && p.b == 7 && p.c.v == 9);
            let mut t = Box::emplace(ctor!(Pair::<u16>(3, Make(x))));
            let (p0, p1) = (&raw const t.0, &raw const t.1);
            assert!(core::ptr::eq(&*t.as_ref().project_ref().0, p0) && core::ptr::eq(&*t.as_ref().project_ref().1, p1));
            let m = t.as_mut().project_pin();
            assert!(core::ptr::eq(&*m.0, p0) && core::ptr::eq(&*m.1, p1));
        }
        done();
    }
    #[recursively_pinned(project_ref = ER, project_pin = EP)]
    enum Either { Left { o: u32, w: u8 }, Right(u64, u16), Neither }
    #[kani::proof]
    fn enums() {
        // Enums cannot be made by ctor!; their projections keep variant and fields.
        let k: u8 = kani::any();
        let (a, b): (u32, u64) = (kani::any(), kani::any());
        let mut e = match k { 0 => unsafe { raw_left(a) }, _ => unsafe { raw_right(b) } };
        let p = unsafe { Pin::new_unchecked(&mut e) };
        match p.as_ref().project_ref() {
            ER::Left { o, w, .. } => assert!(k == 0 && *o == a && *w == 1),
            ER::Right(x, y, ..) => assert!(k != 0 && *x == b && *y == 2),
            _ => assert!(false),
        }
        match p.project_pin() {
            EP::Left { mut o, .. } => { assert!(k == 0); o.set(!a) }
            EP::Right(mut x, ..) => { assert!(k != 0); x.set(!b) }
            _ => assert!(false),
        }
        match &e { Either::Left { o, .. } => assert!(*o == !a), Either::Right(x, ..) => assert!(*x == !b), _ => assert!(false) }
    }
    unsafe fn raw_left(o: u32) -> Either { Either::Left { o, w: 1, __must_use_ctor_to_initialize: [] } }
    unsafe fn raw_right(x: u64) -> Either { Either::Right(x, 2, []) }

    /// The destructor runs once, sees the fields intact, and the fields follow.
    #[recursively_pinned(PinnedDrop)]
    struct Ends { a: Obj, b: Obj }
    impl PinnedDrop for Ends {
        unsafe fn pinned_drop(self: Pin<&mut Self>) {
            assert!(self.a.at_home() && self.b.at_home() && live() == 2, "the fields are intact");
            note(1);
        }
    }
    #[kani::proof]
    fn destructors() {
        {
            let _x = emplace!(ctor!(Ends { a: Make(1), b: Make(2) }));
            assert!(noted() == [0; 4] && live() == 2);
        }
        assert!(noted() == [1, 0, 0, 0], "exactly once");
        done();
    }
    #[derive(CtorFrom_Default)]
    struct Defaults { a: Obj, b: u32, c: Vec<u8> }
    impl !Unpin for Defaults {}
    unsafe impl RecursivelyPinned for Defaults { type CtorInitializedFields = Self; }
    #[kani::proof]
    fn defaults() {
        {
            let d = emplace!(Defaults::ctor_new(()));
            assert!(d.a.at_home() && d.a.v == 77 && d.b == 0 && d.c.is_empty() && live() == 1);
        }
        done();
    }
    /// Raw construction of a type that is not recursively pinned, and of a union.
    struct Bare { x: u32, y: Obj }
    union U { a: u32, b: u64 }
    #[kani::proof]
    fn raw() {
        let v: u32 = kani::any();
        {
            let p = emplace!(unsafe { raw_ctor!(Bare { y: Make(v), x: 4u32 }) });
            assert!(p.x == 4 && p.y.at_home() && p.y.v == v);
            let u = emplace!(unsafe { raw_ctor!(U { b: 7u64 }) });
            assert!(unsafe { u.b } == 7);
        }
        done();
    }
}
