//! Contracts of C++'s smart pointers and allocator in Rust: what is owned is
//! destroyed once, when its last owner goes, and its memory goes back to where it
//! came from.
#![feature(allocator_api, negative_impls)]
#![allow(unused)]

#[cfg(kani)]
mod model {
    use cc_std::ledger;
    use cc_std::crubit_cc_std_internal::std_allocator::*;
    pub static mut LIVE: (i32, u64) = (0, 0x5EED0001);
    pub static mut MADE: (i32, u64) = (0, 0x5EED0002);
    pub static mut DELETED: (i32, u64) = (0, 0x5EED0003);
    pub static mut DELETED_AT: (usize, u64) = (0, 0x5EED0004);
    pub fn live() -> i32 { unsafe { LIVE.0 } }
    /// An object that accounts for itself.
    pub struct Obj { pub v: u32, alive: bool }
    impl Obj {
        pub fn new(v: u32) -> Obj { unsafe { LIVE.0 += 1; MADE.0 += 1; } Obj { v, alive: true } }
        pub fn ok(&self) -> bool { self.alive }
    }
    impl Drop for Obj { fn drop(&mut self) { assert!(self.alive, "an object is destroyed once"); self.alive = false; unsafe { LIVE.0 -= 1; } } }
    /// Objects of other sizes and alignments.
    #[repr(align(64))] pub struct Wide { pub o: Obj }
    pub struct Odd { pub a: [u8; 3] }
    pub struct Empty;
    pub static mut EMPTY: (i32, u64) = (0, 0x5EED0005);
    impl Drop for Empty { fn drop(&mut self) { unsafe { EMPTY.0 -= 1; } } }
    /// C++'s `new T(x)`.
    pub fn cpp_object<T>(x: T) -> *mut T {
        let p = cpp_new(size_of::<T>(), align_of::<T>()) as *mut T;
        unsafe { p.write(x) };
        p
    }
    /// A polymorphic C++ class: only `delete` knows the whole object.
    #[repr(C)] pub struct Base { pub v: u32 }
    #[repr(C)] pub struct Derived { pub base: Base, pub rest: Obj }
    unsafe impl operator::Delete for Base {
        unsafe fn delete(p: *mut Base) {
            unsafe { DELETED.0 += 1; DELETED_AT.0 = p as usize; core::ptr::drop_in_place(p as *mut Derived); cpp_delete(p as *mut _, size_of::<Derived>(), align_of::<Derived>()); }
        }
    }
    impl Drop for Base { fn drop(&mut self) { } }
}

#[cfg(kani)]
mod unique {
    use super::model::*;
    use cc_std::{ledger, std::*};

    #[kani::proof] #[kani::unwind(10)] fn h_owned() {
        let x: u32 = kani::any();
        let p = cpp_object(Obj::new(x));
        let mut u = unsafe { unique_ptr::new(p) };
        assert!(core::ptr::eq(u.get(), p) && core::ptr::eq(u.get(), p), "a unique_ptr holds the pointer it was given");
        assert!(core::ptr::eq(u.as_ref().unwrap(), p) && u.as_ref().unwrap().v == x);
        let y: u32 = kani::any();
        { let m = u.as_mut().unwrap(); assert!(core::ptr::eq(m, p)); m.v = y; }
        { let m = u.as_pin().unwrap(); assert!(core::ptr::eq(&*m, p) && m.v == y); }
        assert!(live() == 1 && ledger::live() == 1, "looking at the object neither destroys nor frees it");
        drop(u);
        assert!(live() == 0, "the object is destroyed with its owner");
        assert!(ledger::live() == 0, "its memory goes back to C++");
        kani::cover!(true, "MUST: dropped");
    }
    #[kani::proof] #[kani::unwind(10)] fn h_released() {
        let x: u32 = kani::any();
        let p = cpp_object(Obj::new(x));
        let mut u = unsafe { unique_ptr::new(p) };
        let q = u.release();
        assert!(core::ptr::eq(q, p), "release returns the pointer");
        assert!(u.get().is_null() && u.as_ref().is_none() && u.as_mut().is_none() && u.as_pin().is_none(), "after release it is null");
        assert!(u.release().is_null());
        drop(u);
        assert!(live() == 1 && ledger::live() == 1, "a released object lives on");
        drop(unsafe { unique_ptr::new(q) });
        assert!(live() == 0 && ledger::live() == 0);
    }
    #[kani::proof] #[kani::unwind(10)] fn h_null() {
        let mut u = unsafe { unique_ptr::<Obj>::new(core::ptr::null_mut()) };
        assert!(u.get().is_null() && u.as_ref().is_none() && u.as_mut().is_none() && u.as_pin().is_none() && u.release().is_null());
        drop(u);
        kani::cover!(true, "MUST: nothing happens");
    }
    /// The pointer may be anything for everything but drop.
    #[kani::proof] fn h_any_pointer() {
        let a: usize = kani::any();
        let p = a as *mut u64;
        let mut u = unsafe { unique_ptr::new(p) };
        assert!(u.get() == p && u.release() == p && u.get().is_null());
        core::mem::forget(u);
        let mut v = unsafe { unique_ptr::<u64>::new(p) };
        let q: *mut u64 = unsafe { core::mem::transmute_copy(&v) };
        assert!(q == p && size_of::<unique_ptr<u64>>() == size_of::<*mut u64>() && align_of::<unique_ptr<u64>>() == align_of::<*mut u64>(), "it is represented by the pointer, as in C++");
        core::mem::forget(v);
    }
    fn kind<T>(x: T) {
        let p = cpp_object(x);
        assert!(ledger::live() == 1);
        drop(unsafe { unique_ptr::new(p) });
        assert!(ledger::live() == 0, "freed as it was allocated");
    }
    #[kani::proof] #[kani::unwind(10)] fn h_overaligned() { kind(Wide { o: Obj::new(kani::any()) }); assert!(live() == 0); }
    #[kani::proof] #[kani::unwind(10)] fn h_odd() { kind(Odd { a: kani::any() }); }
    #[kani::proof] #[kani::unwind(10)] fn h_word() { kind::<u64>(kani::any()); }
    #[kani::proof] #[kani::unwind(10)] fn h_empty() { unsafe { EMPTY.0 = 1; } kind(Empty); assert!(unsafe { EMPTY.0 } == 0); }
    /// The destructor still finds the object's memory allocated and may use C++'s allocator.
    struct Nested { inner: Option<unique_ptr<Obj>> }
    impl Drop for Nested { fn drop(&mut self) { assert!(ledger::live() == 2, "an object is destroyed before its memory is freed"); } }
    #[kani::proof] #[kani::unwind(10)] fn h_nested() {
        let i = unsafe { unique_ptr::new(cpp_object(Obj::new(kani::any()))) };
        drop(unsafe { unique_ptr::new(cpp_object(Nested { inner: Some(i) })) });
        assert!(live() == 0 && ledger::live() == 0);
    }

    #[kani::proof] #[kani::unwind(10)] fn h_virtual() {
        let x: u32 = kani::any();
        let p = cpp_object(Derived { base: Base { v: x }, rest: Obj::new(1) }) as *mut Base;
        let mut u = unsafe { virtual_unique_ptr::new(p) };
        assert!(core::ptr::eq(u.get(), p) && core::ptr::eq(u.as_ref().unwrap(), p) && u.as_ref().unwrap().v == x);
        let y: u32 = kani::any();
        { let m = u.as_mut().unwrap(); assert!(core::ptr::eq(m, p)); m.v = y; }
        { let m = u.as_pin().unwrap(); assert!(core::ptr::eq(&*m, p) && m.v == y); }
        assert!(unsafe { DELETED.0 } == 0 && live() == 1);
        drop(u);
        assert!(unsafe { DELETED.0 == 1 && DELETED_AT.0 == p as usize }, "a polymorphic object is deleted once, by C++'s delete");
        assert!(live() == 0 && ledger::live() == 0, "delete destroys the whole object");
    }
    #[kani::proof] #[kani::unwind(10)] fn h_virtual_released() {
        let p = cpp_object(Derived { base: Base { v: kani::any() }, rest: Obj::new(1) }) as *mut Base;
        let mut u = unsafe { virtual_unique_ptr::new(p) };
        assert!(core::ptr::eq(u.release(), p) && u.get().is_null() && u.as_ref().is_none() && u.as_mut().is_none() && u.as_pin().is_none() && u.release().is_null());
        drop(u);
        assert!(unsafe { DELETED.0 } == 0 && live() == 1 && ledger::live() == 1, "a released object lives on");
        unsafe { <Base as operator::Delete>::delete(p) };
    }
    #[kani::proof] #[kani::unwind(10)] fn h_virtual_null() {
        let mut u = unsafe { virtual_unique_ptr::<Base>::new(core::ptr::null_mut()) };
        assert!(u.get().is_null() && u.as_ref().is_none() && u.as_mut().is_none() && u.as_pin().is_none() && u.release().is_null());
        drop(u);
        assert!(unsafe { DELETED.0 } == 0);
        assert!(size_of::<virtual_unique_ptr<Base>>() == size_of::<*mut Base>());
    }

    /// optional destroys its payload exactly if there is one.
    #[repr(C)] struct Cpp<T> { payload: core::mem::MaybeUninit<T>, engaged: bool }
    #[kani::proof] fn h_optional() {
        let full: bool = kani::any();
        let c = Cpp { payload: if full { core::mem::MaybeUninit::new(Obj::new(1)) } else { core::mem::MaybeUninit::uninit() }, engaged: full };
        assert!(size_of::<Cpp<Obj>>() == size_of::<optional<Obj>>() && align_of::<Cpp<Obj>>() == align_of::<optional<Obj>>());
        let o: optional<Obj> = unsafe { core::mem::transmute(c) };
        assert!(live() == full as i32);
        drop(o);
        assert!(live() == 0, "an engaged optional destroys its payload");
        kani::cover!(full, "MUST: engaged");
        kani::cover!(!full, "MUST: disengaged");
    }
}

#[cfg(kani)]
mod shared {
    use super::model::*;
    use cc_std::crubit_cc_std_internal::std_allocator::*;
    use cc_std::{ledger, std::*};
    use std::pin::Pin;
    use std::sync::Arc;

    fn raw<T>(s: &shared_ptr<T>) -> (*const T, *mut shared_weak_count) { unsafe { core::mem::transmute_copy(s) } }

    #[kani::proof] fn h_one_owner() {
        let x: u32 = kani::any();
        let s = shared_ptr::new(Obj::new(x));
        let (p, c) = raw(&s);
        assert!(size_of::<shared_ptr<Obj>>() == 2 * size_of::<usize>());
        assert!(live() == 1 && control_blocks() == 1 && shared_ptr::use_count(&s) == 1, "a new shared_ptr is the only owner");
        assert!(!shared_ptr::is_null(&s) && core::ptr::eq(shared_ptr::as_ptr(&s), p));
        assert!(core::ptr::eq(shared_ptr::try_as_ref(&s).unwrap(), p) && shared_ptr::try_as_ref(&s).unwrap().v == x && shared_ptr::try_as_ref(&s).unwrap().ok());
        drop(s);
        assert!(live() == 0, "the object goes with its last owner");
        assert!(control_blocks() == 0, "the control block is destroyed after that");
    }
    #[kani::proof] fn h_two_owners() {
        let x: u32 = kani::any();
        let s = shared_ptr::new(Obj::new(x));
        let (p, c) = raw(&s);
        let t = s.clone();
        assert!(raw(&t) == raw(&s) && shared_ptr::use_count(&s) == 2 && shared_ptr::use_count(&t) == 2 && shared_ptr::owner_equal(&s, &t), "a clone is another owner of the same object");
        if kani::any() { drop(s); assert!(shared_ptr::use_count(&t) == 1 && live() == 1 && unsafe { (*p).v } == x); drop(t); }
        else { drop(t); assert!(shared_ptr::use_count(&s) == 1 && live() == 1 && unsafe { (*p).v } == x); drop(s); }
        assert!(live() == 0 && control_blocks() == 0);
    }
    /// C++ holds a weak_ptr.
    #[kani::proof] fn h_watched() {
        let s = shared_ptr::new(Obj::new(kani::any()));
        let (p, c) = raw(&s);
        unsafe { weak_ref(c) };
        drop(s);
        assert!(live() == 0, "a weak_ptr does not keep the object");
        assert!(control_blocks() == 1, "but its control block");
        unsafe { weak_unref(c) };
        assert!(control_blocks() == 0);
    }
    /// C++ holds the last shared_ptr.
    #[kani::proof] fn h_handed_over() {
        let s = shared_ptr::new(Obj::new(kani::any()));
        let (p, c) = shared_ptr::into_raw_parts(s);
        assert!(live() == 1 && unsafe { (*c).owners } == 1, "into_raw_parts hands the ownership over");
        if kani::any() { unsafe { shared_ptr_unref(c) } }
        else {
            let s = unsafe { shared_ptr::from_raw_parts(p, c) };
            assert!(raw(&s) == (p, c) && shared_ptr::use_count(&s) == 1, "from_raw_parts takes it over");
        }
        assert!(live() == 0 && control_blocks() == 0);
    }
    #[kani::proof] fn h_released() {
        let mut s = shared_ptr::new(Obj::new(kani::any()));
        let before = raw(&s);
        let r = shared_ptr::release(&mut s);
        assert!(r == before && shared_ptr::is_null(&s) && raw(&s).1.is_null(), "release leaves null behind");
        assert!(shared_ptr::use_count(&s) == 0 && shared_ptr::try_as_ref(&s).is_none());
        drop(s);
        assert!(live() == 1 && unsafe { (*r.1).owners } == 1, "and keeps the ownership");
        unsafe { shared_ptr_unref(r.1) }
    }
    #[kani::proof] fn h_null() {
        let s = unsafe { shared_ptr::<Obj>::from_raw_parts(core::ptr::null(), core::ptr::null_mut()) };
        assert!(shared_ptr::is_null(&s) && shared_ptr::as_ptr(&s).is_null() && shared_ptr::try_as_ref(&s).is_none() && shared_ptr::use_count(&s) == 0);
        let t = s.clone();
        assert!(shared_ptr::is_null(&t) && shared_ptr::owner_equal(&s, &t));
        let u = shared_ptr::project(t, |_| -> &u32 { panic!("there is nothing to project") });
        assert!(shared_ptr::is_null(&u));
        drop(s);
        drop(u);
    }
    #[kani::proof] fn h_aliasing_null() {
        // C++ can make a null pointer that owns, and an owner can be asked for null
        let s = shared_ptr::new(Obj::new(1));
        let (_, c) = shared_ptr::into_raw_parts(s);
        let t = unsafe { shared_ptr::<Obj>::from_raw_parts(core::ptr::null(), c) };
        assert!(shared_ptr::is_null(&t) && shared_ptr::use_count(&t) == 1 && shared_ptr::try_as_ref(&t).is_none());
        let u = shared_ptr::project(t, |o| &o.v);
        assert!(shared_ptr::is_null(&u) && shared_ptr::use_count(&u) == 1 && live() == 1, "a null pointer stays an owner when it is projected");
        drop(u);
        assert!(live() == 0 && control_blocks() == 0);
    }
    #[kani::proof] fn h_projected() {
        let (x, y): (u32, u32) = (kani::any(), kani::any());
        let s = shared_ptr::new((Obj::new(x), Obj::new(y)));
        let (p, c) = raw(&s);
        let keep = if kani::any() { Some(s.clone()) } else { None };
        let mut calls = 0;
        let first: bool = kani::any();
        let u: shared_ptr<u32> = shared_ptr::project(s, |o| { assert!(core::ptr::eq(o, p)); if first { &o.0.v } else { &o.1.v } });
        assert!(core::ptr::eq(shared_ptr::as_ptr(&u), unsafe { if first { &(*p).0.v } else { &(*p).1.v } }), "a projection points into the object");
        assert!(*shared_ptr::try_as_ref(&u).unwrap() == if first { x } else { y });
        assert!(raw(&u).1 == c && shared_ptr::use_count(&u) == 1 + keep.is_some() as usize && live() == 2, "and takes over its share of the ownership");
        if let Some(k) = &keep { assert!(shared_ptr::owner_equal(&u, k)); }
        drop(keep);
        assert!(live() == 2);
        drop(u);
        assert!(live() == 0 && control_blocks() == 0);
    }
    #[kani::proof] fn h_owner_equal() {
        let s = shared_ptr::new(1u8);
        let t = shared_ptr::new(1u8);
        assert!(!shared_ptr::owner_equal(&s, &t) && shared_ptr::owner_equal(&s, &s), "other owners own other objects");
        // same address, other control block
        let f = unsafe { shared_ptr::from_raw_parts(shared_ptr::as_ptr(&s), raw(&t).1) };
        assert!(!shared_ptr::owner_equal(&s, &f) && shared_ptr::owner_equal(&t, &f), "ownership is about the control block, not the address");
        core::mem::forget(f);
    }
    #[kani::proof] fn h_box() {
        let x: u32 = kani::any();
        let b = Box::new(Obj::new(x));
        let p: *const Obj = &*b;
        let s = shared_ptr::from_box(b);
        assert!(core::ptr::eq(shared_ptr::as_ptr(&s), p) && shared_ptr::try_as_ref(&s).unwrap().v == x && shared_ptr::use_count(&s) == 1 && live() == 1, "a box is owned where it is");
        drop(s);
        assert!(live() == 0 && control_blocks() == 0);
    }
    #[kani::proof] fn h_pinned_box() {
        let x: u32 = kani::any();
        let b = Box::pin(Obj::new(x));
        let p: *const Obj = &*b;
        let s = shared_ptr::from_pinned_box(b);
        assert!(core::ptr::eq(shared_ptr::as_ptr(&s), p) && shared_ptr::try_as_ref(&s).unwrap().v == x && shared_ptr::use_count(&s) == 1 && live() == 1);
        drop(s);
        assert!(live() == 0 && control_blocks() == 0);
    }
    #[kani::proof] fn h_arc() {
        let x: u32 = kani::any();
        let a = Arc::new(Obj::new(x));
        let w = a.clone();
        let s = shared_ptr::from_arc(a);
        let t = s.clone();
        assert!(core::ptr::eq(shared_ptr::as_ptr(&s), &*w) && Arc::strong_count(&w) == 2 && shared_ptr::use_count(&t) == 2 && live() == 1, "all clones count as one owner of the Arc");
        drop(s);
        assert!(Arc::strong_count(&w) == 2);
        drop(t);
        assert!(Arc::strong_count(&w) == 1 && live() == 1 && control_blocks() == 0);
        drop(w);
        assert!(live() == 0);
    }
    static mut CALLS: u32 = 0x5EED0006;
    fn calls() -> u32 { unsafe { CALLS - 0x5EED0006 } }
    static mut WITH: usize = 0x5EED0007;
    fn with() -> usize { unsafe { WITH } }
    fn deleter(p: *mut u32) { unsafe { CALLS += 1; WITH = p as usize; } }
    #[kani::proof] fn h_deleter() {
        let mut x: u32 = kani::any();
        let p: *mut u32 = &mut x;
        let o = Obj::new(3);
        let s = unsafe { shared_ptr::from_ptr_and_deleter(p, move |q| { assert!(o.ok()); deleter(q) }) };
        assert!(core::ptr::eq(shared_ptr::as_ptr(&s), p) && shared_ptr::use_count(&s) == 1);
        let t = s.clone();
        drop(s);
        assert!(calls() == 0 && live() == 1, "the deleter waits for the last owner");
        drop(t);
        assert!(calls() == 1 && with() == p as usize, "it is called once, with the pointer");
        assert!(live() == 0 && control_blocks() == 0, "and is destroyed");
    }
    #[kani::proof] fn h_deleter_of_null() {
        let s = unsafe { shared_ptr::from_ptr_and_deleter(core::ptr::null_mut(), { let k = 1u8; move |p| { assert!(k == 1); deleter(p) } }) };
        assert!(shared_ptr::is_null(&s) && shared_ptr::try_as_ref(&s).is_none() && shared_ptr::use_count(&s) == 1);
        drop(s);
        assert!(calls() == 1 && with() == 0, "the deleter is called for a null pointer, too");
    }
    #[kani::proof] fn h_deleter_watched() {
        let mut x = 7u32;
        let s = unsafe { shared_ptr::from_ptr_and_deleter(&mut x as *mut u32, { let k = 1u8; move |p| { assert!(k == 1); deleter(p) } }) };
        let (_, c) = raw(&s);
        unsafe { weak_ref(c) };
        drop(s);
        assert!(calls() == 1 && control_blocks() == 1);
        unsafe { weak_unref(c) };
        assert!(calls() == 1 && control_blocks() == 0);
    }
    /// Objects of every alignment are found again from the control block.
    #[kani::proof] fn h_overaligned() {
        let s = shared_ptr::new(Wide { o: Obj::new(kani::any()) });
        assert!(shared_ptr::as_ptr(&s) as usize % 64 == 0);
        let c = raw(&s).1;
        drop(s);
        assert!(live() == 0 && control_blocks() == 0);
    }
    #[kani::proof] fn h_empty() {
        unsafe { EMPTY.0 = 1; }
        let s = shared_ptr::new(Empty);
        let t = s.clone();
        drop(s);
        assert!(unsafe { EMPTY.0 } == 1);
        drop(t);
        assert!(unsafe { EMPTY.0 } == 0 && control_blocks() == 0);
    }
}

#[cfg(kani)]
mod allocator {
    use super::model::*;
    use cc_std::crubit_cc_std_internal::std_allocator::*;
    use cc_std::{ledger, std::*};
    use core::alloc::{Allocator, GlobalAlloc, Layout};

    fn layout() -> Layout {
        let n: usize = kani::any();
        kani::assume(n <= 64);
        let a: u8 = kani::any();
        kani::assume(a <= 7);
        Layout::from_size_align(n, 1 << a).unwrap()
    }
    #[kani::proof] #[kani::unwind(10)] fn h_allocate() {
        let l = layout();
        let a = StdAllocator {};
        let b = a.allocate(l).unwrap();
        let p = b.as_ptr() as *mut u8;
        assert!(b.len() >= l.size() && p as usize % l.align() == 0);
        assert!(ledger::block(p) == Some((l.size(), l.align())), "memory comes from C++, of the size and alignment asked for, even if that is zero");
        unsafe { a.clone().deallocate(core::ptr::NonNull::new(p).unwrap(), l) };
        assert!(ledger::live() == 0 && ledger::news() == 1, "and goes back there");
    }
    #[kani::proof] #[kani::unwind(10)] fn h_global() {
        let l = layout();
        let a = StdAllocator {};
        unsafe {
            let p = a.alloc(l);
            assert!(ledger::block(p) == Some((l.size(), l.align())));
            a.dealloc(p, l);
        }
        assert!(ledger::live() == 0);
    }
    #[kani::proof] #[kani::unwind(10)] fn h_exhausted() {
        unsafe { ledger::EXHAUSTED.0 = true; }
        let a = StdAllocator {};
        assert!(a.allocate(layout()).is_err(), "exhausted memory is reported");
    }
    #[kani::proof] #[kani::unwind(10)] fn h_box() {
        let x: u32 = kani::any();
        let b = Box::new_in(Obj::new(x), StdAllocator {});
        assert!(ledger::live() == 1 && b.v == x);
        if kani::any() { drop(b) } else { drop(unsafe { unique_ptr::new(Box::into_raw_with_allocator(b).0) }) }
        assert!(live() == 0 && ledger::live() == 0, "what is allocated in Rust may be deleted in C++");
    }
    static mut SEEN: ((bool, usize), u64) = ((false, 0), 0x5EED0008);
    unsafe extern "C" fn callback(f: FunctionToCall, c: *mut DynControlBlock) { unsafe { SEEN.0 = (f == FunctionToCall::kDeleteControlBlock, c as usize); } }
    #[kani::proof] fn h_callback() {
        let mut c = core::mem::ManuallyDrop::new(DynControlBlock { base: shared_weak_count { owners: 0, watchers: 0 }, deleter: Some(callback) });
        let p: *mut DynControlBlock = &mut *c;
        let last: bool = kani::any();
        unsafe { __crubit_invoke_dyn_control_block_deleter(if last { FunctionToCall::kDeleteControlBlock } else { FunctionToCall::kDestroyValue }, core::ptr::NonNull::new(p).unwrap()) };
        assert!(unsafe { SEEN.0 } == (last, p as usize), "an event of a control block goes to its own deleter, unchanged");
    }
}
