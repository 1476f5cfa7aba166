//! Contracts of Rust's callables and futures as C++ holds them.
#![allow(unused)]

#[cfg(kani)]
mod model {
    pub use cpp_waker::model::{self, of, CPP, ELSEWHERE, FIRST, UnitPtr, WAKERS};
    pub use core::{future::Future, mem::{ManuallyDrop, MaybeUninit}, pin::Pin, task::{Context, Poll, Waker}};
    pub static mut DROPS: (usize, u64) = (0, 0x5EED0030);
    pub static mut POLLS: (usize, u64) = (0, 0x5EED0031);
    pub static mut MADE: (usize, u64) = (0, 0x5EED0032);
    pub fn drops() -> usize { unsafe { DROPS.0 } }
    pub fn polls() -> usize { unsafe { POLLS.0 } }
    pub fn values() -> usize { unsafe { MADE.0 } }
    /// Counts the objects that have not been dropped.
    pub struct Value(pub u32);
    impl Value { pub fn new(x: u32) -> Value { unsafe { MADE.0 += 1; } Value(x) } }
    impl Drop for Value { fn drop(&mut self) { unsafe { MADE.0 -= 1; } } }
    /// What a future does with its waker while it is pending.
    #[derive(Clone, Copy, PartialEq)]
    pub enum Does { Nothing, WakesByRef, ClonesAndDrops, ClonesAndWakes, Keeps }
    pub struct Script<T> { pub pending: u8, pub value: Option<T>, pub does: Does, pub kept: Option<Waker>, pub at: *const (), pub _p: core::marker::PhantomPinned }
    unsafe impl<T: Send> Send for Script<T> {}
    pub fn script<T>(pending: u8, value: T, does: Does) -> Script<T> { Script { pending, value: Some(value), does, kept: None, at: core::ptr::null(), _p: core::marker::PhantomPinned } }
    impl<T> Future for Script<T> {
        type Output = T;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
            let s = unsafe { self.get_unchecked_mut() };
            let here = s as *const _ as *const ();
            assert!(s.at.is_null() || s.at == here, "a pinned future does not move");
            s.at = here;
            unsafe { POLLS.0 += 1; }
            assert!(s.value.is_some(), "a future is not polled after it completed");
            match s.does {
                Does::Nothing => {}
                Does::WakesByRef => cx.waker().wake_by_ref(),
                Does::ClonesAndDrops => drop(cx.waker().clone()),
                Does::ClonesAndWakes => cx.waker().clone().wake(),
                Does::Keeps => { if s.kept.is_none() { s.kept = Some(cx.waker().clone()); } }
            }
            if s.pending > 0 { s.pending -= 1; return Poll::Pending; }
            Poll::Ready(s.value.take().unwrap())
        }
    }
    impl<T> Drop for Script<T> { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
    /// A waker that C++ holds.
    pub fn waker(cpp: bool) -> UnitPtr { unsafe { CPP.0 = cpp; ELSEWHERE.0 = kani::any(); WAKERS.0[0].handles = 1; } &FIRST.0 as *const _ as UnitPtr }
    /// After one poll with that waker.
    pub fn woken(does: Does) {
        let (a, b) = (of(0), of(1));
        let c = if unsafe { ELSEWHERE.0 } { b } else { a };
        assert!(a.clones == (does != Does::Nothing && does != Does::WakesByRef) as usize && b.clones == 0, "a waker is cloned when the future clones it");
        assert!(a.refs == (does == Does::WakesByRef) as usize && b.refs == 0, "woken by reference when the future does that");
        assert!(c.wakes == (does == Does::ClonesAndWakes) as usize && c.drops == (does == Does::ClonesAndDrops) as usize && a.wakes + b.wakes == c.wakes && a.drops + b.drops == c.drops, "a clone is woken or dropped, once");
        let kept = (does == Does::Keeps) as usize;
        assert!(a.handles == 1 + if unsafe { ELSEWHERE.0 } { 0 } else { kept } && a.handles + b.handles == 1 + kept, "and C++ still has its own");
    }
    pub fn any_does() -> Does { match kani::any::<u8>() { 0 => Does::Nothing, 1 => Does::WakesByRef, 2 => Does::ClonesAndDrops, 3 => Does::ClonesAndWakes, _ => Does::Keeps } }
}

/// poll_erased.
#[cfg(kani)]
mod erased {
    use super::model::*;
    use erased_future::ErasedFuture;
    fn polled<T: Send + PartialEq + kani::Arbitrary + Copy + 'static>() {
        let x: T = kani::any();
        let before: T = kani::any();
        let mut out = before;
        let mut cx = Context::from_waker(Waker::noop());
        {
            let mut f = core::pin::pin!(script(1, x, Does::Nothing));
            let d: Pin<&mut (dyn ErasedFuture + Send)> = f.as_mut();
            assert!(unsafe { d.poll_erased(&mut cx, &mut out as *mut T as *mut ()) } == Poll::Pending && polls() == 1);
            assert!(out == before, "the result is left alone while the future is pending");
            assert!(unsafe { f.as_mut().poll_erased(&mut cx, &mut out as *mut T as *mut ()) } == Poll::Ready(()) && polls() == 2);
            assert!(out == x && drops() == 0, "and has the value of the future when it is ready");
        }
        assert!(drops() == 1);
    }
    #[kani::proof] #[kani::unwind(6)] fn h_polled_u8() { polled::<u8>(); }
    #[kani::proof] #[kani::unwind(6)] fn h_polled_u64() { polled::<u64>(); }
    #[kani::proof] #[kani::unwind(6)] fn h_polled_wide() { polled::<(u64, u8, u32)>(); }
    #[kani::proof] #[kani::unwind(12)] fn h_polled_array() { polled::<[u16; 3]>(); }
    #[kani::proof] #[kani::unwind(6)] fn h_nothing_to_write() {
        let mut cx = Context::from_waker(Waker::noop());
        let mut f = core::pin::pin!(script(0, (), Does::Nothing));
        assert!(unsafe { f.as_mut().poll_erased(&mut cx, core::ptr::null_mut()) } == Poll::Ready(()) && polls() == 1, "an empty result needs no room");
    }
    #[kani::proof] #[kani::unwind(6)] fn h_owned_value() {
        let x: u32 = kani::any();
        let mut out = MaybeUninit::<Value>::uninit();
        let mut cx = Context::from_waker(Waker::noop());
        {
            let mut f = core::pin::pin!(script(0, Value::new(x), Does::Nothing));
            assert!(unsafe { f.as_mut().poll_erased(&mut cx, out.as_mut_ptr() as *mut ()) } == Poll::Ready(()));
        }
        assert!(values() == 1, "the value now belongs to the caller");
        assert!(unsafe { out.assume_init() }.0 == x && values() == 0);
    }
    /// Passes the caller's context on.
    #[kani::proof] #[kani::unwind(6)] fn h_context() {
        let w = ManuallyDrop::new(unsafe { Waker::from_raw(core::task::RawWaker::new(waker(false), &TABLE)) });
        let mut cx = Context::from_waker(&w);
        let mut out = 0u8;
        let mut f = core::pin::pin!(script(1, 1u8, Does::WakesByRef));
        assert!(unsafe { f.as_mut().poll_erased(&mut cx, &mut out as *mut u8 as *mut ()) } == Poll::Pending && of(0).refs == 1);
    }
    fn r(p: UnitPtr) { unsafe { model::rs_std_waker_wake_by_ref(p) } }
    fn n(p: UnitPtr) {}
    fn c(p: UnitPtr) -> core::task::RawWaker { panic!() }
    static TABLE: core::task::RawWakerVTable = core::task::RawWakerVTable::new(c, n, r, n);
}

/// The futures that C++ polls by address.
#[cfg(kani)]
mod dyn_erased {
    use super::model::*;
    use dyn_erased_future::{DynErasedFuture, vp};
    fn any_bytes<T>(f: DynErasedFuture<'_>) -> MaybeUninit<DynErasedFuture<'_>> { MaybeUninit::new(f) }
    /// Polled by C++.
    #[kani::proof] #[kani::unwind(6)] fn h_polled() {
        let does = any_does();
        let x: u64 = kani::any();
        let w = waker(false);
        let ready: bool = kani::any();
        let mut out = 7u64;
        {
            let mut f = DynErasedFuture::new(script(!ready as u8, x, does));
            assert!(polls() == 0 && size_of_val(&f) == 2 * size_of::<usize>() && align_of_val(&f) == align_of::<usize>());
            let r = unsafe { vp::poll(&mut f, w, &mut out as *mut u64 as *mut ()) };
            assert!(r == ready && polls() == 1 && drops() == 0, "polling says whether the future is ready");
            assert!(out == if ready { x } else { 7 }, "and stores its result");
            woken(does);
            kani::cover!(ready, "MUST: ready");
            kani::cover!(!ready && does == Does::Keeps, "MUST: pending");
            unsafe { vp::drop(&mut f) };
            core::mem::forget(f);
        }
        assert!(drops() == 1, "the future is destroyed once");
        if does == Does::Keeps { assert!(of(0).handles + of(1).handles == 1 && of(0).drops + of(1).drops == 1, "with the waker it kept"); }
    }
    #[kani::proof] #[kani::unwind(6)] fn h_polled_twice() {
        let w = waker(false);
        let x: u32 = kani::any();
        let mut out = MaybeUninit::<Value>::uninit();
        let mut f = DynErasedFuture::new(script(1, Value::new(x), Does::Keeps));
        assert!(!unsafe { vp::poll(&mut f, w, out.as_mut_ptr() as *mut ()) });
        assert!(unsafe { vp::poll(&mut f, w, out.as_mut_ptr() as *mut ()) } && polls() == 2);
        unsafe { vp::drop(&mut f) };
        core::mem::forget(f);
        assert!(values() == 1 && drops() == 1, "the result outlives its future");
        assert!(unsafe { out.assume_init() }.0 == x);
        assert!(of(0).handles + of(1).handles == 1);
    }
    /// As C++ moves it: the bytes go, the source is initialized again.
    #[kani::proof] #[kani::unwind(6)] fn h_moved_from() {
        let w = waker(false);
        let mut out = 3u64;
        let mut a = MaybeUninit::<DynErasedFuture<'_>>::uninit();
        unsafe {
            vp::init(a.as_mut_ptr());
            assert!(!vp::poll(&mut *a.as_mut_ptr(), w, &mut out as *mut u64 as *mut ()) && out == 3 && polls() == 0, "what is moved from is never ready");
            assert!(!vp::poll(&mut *a.as_mut_ptr(), w, &mut out as *mut u64 as *mut ()) && out == 3, "never");
            vp::drop(a.as_mut_ptr());
        }
        assert!(of(0).handles == 1 && of(0).drops == 0);
    }
    #[kani::proof] #[kani::unwind(6)] fn h_moved() {
        let w = waker(false);
        let x: u64 = kani::any();
        let mut out = 3u64;
        let mut a = MaybeUninit::new(DynErasedFuture::new(script(0, x, Does::Nothing)));
        let mut b = MaybeUninit::<DynErasedFuture<'_>>::uninit();
        unsafe {
            core::ptr::copy_nonoverlapping(a.as_ptr(), b.as_mut_ptr(), 1);
            vp::init(a.as_mut_ptr());
            vp::drop(a.as_mut_ptr());
            assert!(drops() == 0);
            assert!(vp::poll(&mut *b.as_mut_ptr(), w, &mut out as *mut u64 as *mut ()) && out == x);
            vp::drop(b.as_mut_ptr());
        }
        assert!(drops() == 1);
    }
    #[kani::proof] #[kani::unwind(6)] fn h_never_polled() {
        let mut f = DynErasedFuture::new(script(0, Value::new(1), Does::Nothing));
        unsafe { vp::drop(&mut f) };
        core::mem::forget(f);
        assert!(drops() == 1 && values() == 0 && polls() == 0, "a future that was never polled is destroyed as well");
    }
}

/// The futures that know whether they are done.
#[cfg(kani)]
mod dyn_future_ {
    use super::model::*;
    use dyn_future::DynFuture;
    #[kani::proof] #[kani::unwind(6)] fn h_polled() {
        let does = any_does();
        let w = waker(true) as *const cpp_waker::rs_std::CppWaker;
        let ready: bool = kani::any();
        {
            let mut f = DynFuture::from_future(script(!ready as u8, (), does));
            assert!(polls() == 0 && !f.is_completed_or_discarded());
            let r = unsafe { f.poll(w) };
            assert!(r == ready && polls() == 1, "polling says whether the future is ready");
            assert!(f.is_completed_or_discarded() == ready && drops() == ready as usize, "a future that completed is destroyed");
            if !(ready && does == Does::Keeps) { woken(does); }
            kani::cover!(ready, "MUST: ready");
            kani::cover!(!ready && does == Does::Keeps, "MUST: pending");
        }
        assert!(drops() == 1, "once");
        if does == Does::Keeps { assert!(of(0).handles + of(1).handles == 1 && of(0).drops + of(1).drops == 1, "with the waker it kept"); }
    }
    #[kani::proof] #[kani::unwind(6)] fn h_polled_until_ready() {
        let w = waker(true) as *const cpp_waker::rs_std::CppWaker;
        let mut f = DynFuture::from_future(script(2, (), Does::WakesByRef));
        assert!(unsafe { !f.poll(w) && !f.poll(w) } && !f.is_completed_or_discarded() && drops() == 0);
        assert!(unsafe { f.poll(w) } && f.is_completed_or_discarded() && drops() == 1 && polls() == 3 && of(0).refs == 3);
        f.discard();
        drop(f);
        assert!(drops() == 1 && of(0).handles == 1);
    }
    #[kani::proof] #[kani::unwind(6)] fn h_discarded() {
        let mut f = DynFuture::from_future(script(0, (), Does::Nothing));
        f.discard();
        assert!(f.is_completed_or_discarded() && drops() == 1 && polls() == 0, "a discarded future is destroyed at once");
        f.discard();
        drop(f);
        assert!(drops() == 1);
    }
    #[kani::proof] #[kani::unwind(6)] fn h_default() { assert!(DynFuture::default().is_completed_or_discarded()); let o: Option<Pin<Box<dyn Future<Output = ()> + Send>>> = DynFuture::default().into(); assert!(o.is_none()); }
    #[kani::proof] #[kani::unwind(6)] fn h_taken_out() {
        let f = DynFuture::from_future(script(0, (), Does::Nothing));
        let o: Option<Pin<Box<dyn Future<Output = ()> + Send>>> = f.into();
        assert!(drops() == 0, "the future itself is given back");
        let mut b = o.unwrap();
        let mut cx = Context::from_waker(Waker::noop());
        assert!(b.as_mut().poll(&mut cx) == Poll::Ready(()) && polls() == 1);
        drop(b);
        assert!(drops() == 1);
    }
    #[kani::proof] #[kani::unwind(6)] #[kani::should_panic] fn h_poll_completed_must_panic() {
        let w = waker(true) as *const cpp_waker::rs_std::CppWaker;
        let mut f = DynFuture::from_future(script(0, (), Does::Nothing));
        kani::assume(unsafe { f.poll(w) });
        unsafe { f.poll(w) };
        kani::cover!(true, "NEVER: a completed future is polled");
    }
    #[kani::proof] #[kani::unwind(6)] #[kani::should_panic] fn h_poll_discarded_must_panic() {
        let w = waker(true) as *const cpp_waker::rs_std::CppWaker;
        let mut f = DynFuture::from_future(script(1, (), Does::Nothing));
        f.discard();
        unsafe { f.poll(w) };
        kani::cover!(true, "NEVER: a discarded future is polled");
    }
}

/// The callables that C++ relocates and destroys, and gets or gives back.
#[cfg(kani)]
mod callable {
    use super::model::*;
    use bridge_rust::{CrubitAbi, internal};
    use dyn_callable_rs::{DynCallableAbi, FunctionToCall, manager, moved_from_panic};
    type F = dyn Fn(u32) -> u32;
    fn given(v: Value) -> Box<F> { Box::new(move |x| { let v = &v; x ^ v.0 }) }
    #[kani::proof] #[kani::unwind(6)] fn h_disposed() {
        let mut b = ManuallyDrop::new(given(Value::new(kani::any())));
        let p: *mut Box<F> = &mut *b;
        unsafe { manager::<F>(FunctionToCall::Dispose, p, p) };
        assert!(values() == 0, "a callable is destroyed once");
    }
    #[kani::proof] #[kani::unwind(6)] fn h_relocated() {
        let (v, x): (u32, u32) = (kani::any(), kani::any());
        let mut from = ManuallyDrop::new(given(Value::new(v)));
        let p = &**from as *const F as *const ();
        let mut to = MaybeUninit::<Box<F>>::uninit();
        unsafe { manager::<F>(FunctionToCall::RelocateFromTo, &mut *from, to.as_mut_ptr()) };
        let b = unsafe { to.assume_init() };
        assert!(values() == 1 && &*b as *const F as *const () == p && b(x) == x ^ v, "a callable is relocated as it is");
        drop(b);
        assert!(values() == 0);
    }
    union Room { flag: *mut bool, b: ManuallyDrop<MaybeUninit<Box<F>>> }
    #[kani::proof] #[kani::unwind(6)] fn h_relocated_to_rust() {
        let (v, x): (u32, u32) = (kani::any(), kani::any());
        let mut from = ManuallyDrop::new(given(Value::new(v)));
        let p = &**from as *const F as *const ();
        let mut rust = false;
        let mut to = Room { flag: &mut rust };
        unsafe { manager::<F>(FunctionToCall::RelocateFromToAndQueryRust, &mut *from, &mut to as *mut Room as *mut Box<F>) };
        assert!(rust, "Rust says that the callable is its own");
        let b = unsafe { ManuallyDrop::into_inner(to.b).assume_init() };
        assert!(values() == 1 && &*b as *const F as *const () == p && b(x) == x ^ v, "and it is relocated as it is");
        drop(b);
        assert!(values() == 0);
    }
    #[kani::proof] #[kani::unwind(6)] fn h_numbers() { assert!(FunctionToCall::Dispose as u8 == 0 && FunctionToCall::RelocateFromTo as u8 == 1 && FunctionToCall::RelocateFromToAndQueryRust as u8 == 2 && size_of::<FunctionToCall>() == 1, "the operations have absl's numbers"); }
    fn fallback(v: Value) -> Box<F> { Box::new(move |x| { let _ = &v; x }) }
    const N: usize = <DynCallableAbi<F> as CrubitAbi>::SIZE;
    fn words(b: &Box<F>) -> [usize; 2] { unsafe { core::mem::transmute_copy(b) } }
    #[kani::proof] #[kani::unwind(26)] fn h_to_cpp() {
        assert!(N == 24, "both sides agree on the size");
        let v: u32 = kani::any();
        let b = given(Value::new(v));
        let w = words(&b);
        let mut buf = [0u8; N];
        unsafe { internal::encode(DynCallableAbi::<F>::new(fallback(Value::new(1))), buf.as_mut_ptr(), b) };
        let mut got = [0usize; 2];
        unsafe { core::ptr::copy_nonoverlapping(buf.as_ptr().add(N - 16), got.as_mut_ptr() as *mut u8, 16) };
        assert!(got == w && values() == 1, "the box itself goes to C++, which owns it now");
    }
    /// What C++ writes.
    fn from_cpp(present: bool, v: u32) -> Box<F> {
        let mut buf = [0u8; N];
        let b = given(Value::new(v));
        buf[N - 1] = present as u8;
        if present {
            let w = words(&b);
            unsafe { core::ptr::copy_nonoverlapping(w.as_ptr() as *const u8, buf.as_mut_ptr().add(N - 17), 16) };
            core::mem::forget(b);
        } else { drop(b); }
        unsafe { internal::decode(DynCallableAbi::<F>::new(fallback(Value::new(9))), buf.as_ptr()) }
    }
    #[kani::proof] #[kani::unwind(26)] fn h_present_from_cpp() {
        let (v, x): (u32, u32) = (kani::any(), kani::any());
        let b = from_cpp(true, v);
        assert!(b(x) == x ^ v && values() == 1, "the callable that C++ had comes back, the fallback is destroyed");
        drop(b);
        assert!(values() == 0);
    }
    #[kani::proof] #[kani::unwind(26)] fn h_absent_from_cpp() {
        let x: u32 = kani::any();
        let b = from_cpp(false, 1);
        assert!(b(x) == x && values() == 1, "a moved-from callable comes back as the fallback");
        drop(b);
        assert!(values() == 0);
    }
    #[kani::proof] #[kani::should_panic] fn h_moved_from_must_panic() { moved_from_panic(); }
    /// There and back again, also for callables that may be called once.
    #[kani::proof] #[kani::unwind(26)] fn h_once() {
        let v = Value::new(kani::any());
        let n = v.0;
        let mut b: ManuallyDrop<Box<dyn FnOnce() -> Value>> = ManuallyDrop::new(Box::new(move || v));
        let mut to = MaybeUninit::<Box<dyn FnOnce() -> Value>>::uninit();
        unsafe { manager::<dyn FnOnce() -> Value>(FunctionToCall::RelocateFromTo, &mut *b, to.as_mut_ptr()) };
        let r = unsafe { to.assume_init() }();
        assert!(r.0 == n && values() == 1);
    }
}
