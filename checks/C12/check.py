import os
from vp.kani import run_kani
from vp.rstatic import run_rust_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C12 (cargo kani on checks/C12/rust; rustc on the compile-time contracts)"
FUNCTIONS = ["cref::CRef::{from_ref,from_pin,from_ptr,unchanging,const_cast,as_ptr,clone}", "cref::CMut::{from_ref,from_pin,from_ptr,into_const,unchanging,unique,unpin_unique,as_ptr,as_mut_ptr,clone}",
             "cref::CRefLike::into_cref and cref::CMutLike::into_cmut of every implementation", "oops::Upcast::upcast of every implementation", "oops::UnsafeUpcast::unsafe_upcast", "oops::Inherits::upcast_ptr_mut and the reflexive implementation", "decltype_cast::decltype_cast"]
TRUSTED = ["Kani 0.68.0 / CBMC", "rustc (type and borrow checker) for the compile-time contracts"]
ASSUMPTIONS = ["target types are representative instances (sizes 0 to 32, alignments 1 to 32, immovable, slices, trait objects)", "thunks that generated code passes as Inherits::upcast_ptr are callers' obligations"]

PRELUDE = """
#![allow(unused)]
use cref::*; use oops::*; use core::pin::Pin; use core::marker::PhantomPinned;
pub struct Still(u32, PhantomPinned);
fn send<T: Send>(_: T) {} fn sync<T: Sync>(_: T) {} fn unpin<T: Unpin>(_: T) {}
pub struct Base(u32); pub struct PBase(u32, PhantomPinned); pub struct Derived { b: Base, p: PBase } pub struct Other;
impl Unpin for Derived {}
unsafe impl Inherits<Base> for Derived { unsafe fn upcast_ptr(p: *const Self) -> *const Base { unsafe { &raw const (*p).b } } }
unsafe impl Inherits<PBase> for Derived { unsafe fn upcast_ptr(p: *const Self) -> *const PBase { unsafe { &raw const (*p).p } } }
"""
ACCEPT = [
    ("a shared reference makes a const reference of the same lifetime", "fn f<'a>(x: &'a u32) -> CRef<'a, u32> { CRef::from_ref(x) }"),
    ("a pinned reference to an immovable value makes a reference", "fn f<'a>(x: Pin<&'a Still>) -> CRef<'a, Still> { CRef::from_pin(x) }  fn g<'a>(x: Pin<&'a mut Still>) -> CMut<'a, Still> { CMut::from_pin(x) }"),
    ("references are Copy", "fn f<'a>(x: CMut<'a, Still>) -> (CMut<'a, Still>, CMut<'a, Still>) { (x, x) }  fn g<'a>(x: CRef<'a, str>) -> (CRef<'a, str>, CRef<'a, str>) { (x, x) }"),
    ("references are Unpin", "fn f(x: CMut<Still>, y: CRef<Still>) { unpin(x); unpin(y) }"),
    ("const references are covariant in the lifetime", "fn f<'a, 'b: 'a>(x: CRef<'b, u32>) -> CRef<'a, u32> { x }"),
    ("an unpinnable derived class upcasts mutably to an immovable base", "fn f<'a>(x: &'a mut Derived) -> Pin<&'a mut PBase> { x.upcast() }"),
    ("and to a movable one", "fn f<'a>(x: &'a mut Derived) -> &'a mut Base { x.upcast() }"),
    ("conversion traits keep the lifetime", "fn f<'a>(x: &'a mut u32) -> CMut<'a, u32> { x.into_cmut() }"),
]
REJECT = [
    ("a plain shared reference is not enough for an immovable value", "fn f<'a>(x: &'a Still) -> CRef<'a, Still> { CRef::from_ref(x) }"),
    ("a plain mutable reference is not enough for an immovable value", "fn f<'a>(x: &'a mut Still) -> CMut<'a, Still> { CMut::from_ref(x) }"),
    ("nor through the conversion trait", "fn f<'a>(x: &'a Still) -> CRef<'a, Still> { x.into_cref() }"),
    ("nor through the mutable conversion trait", "fn f<'a>(x: &'a mut Still) -> CMut<'a, Still> { x.into_cmut() }"),
    ("nor through the const conversion of a mutable reference", "fn f<'a>(x: &'a mut Still) -> CRef<'a, Still> { x.into_cref() }"),
    ("a shared reference does not convert to a mutable one", "fn f<'a>(x: &'a u32) -> CMut<'a, u32> { x.into_cmut() }"),
    ("a pinned shared reference does not convert to a mutable one", "fn f<'a>(x: Pin<&'a u32>) -> CMut<'a, u32> { x.into_cmut() }"),
    ("a const reference does not convert to a mutable one", "fn f<'a>(x: CRef<'a, u32>) -> CMut<'a, u32> { x.into_cmut() }"),
    ("const_cast is unsafe", "fn f<'a>(x: CRef<'a, u32>) -> CMut<'a, u32> { CRef::const_cast(x) }"),
    ("from_ptr of a const reference is unsafe", "fn f<'a>(x: *const u32) -> CRef<'a, u32> { CRef::from_ptr(x) }"),
    ("from_ptr of a mutable reference is unsafe", "fn f<'a>(x: *mut u32) -> CMut<'a, u32> { CMut::from_ptr(x) }"),
    ("unchanging is unsafe", "fn f<'a>(x: CRef<'a, u32>) -> Pin<&'a u32> { CRef::unchanging(x) }"),
    ("unchanging of a mutable reference is unsafe", "fn f<'a>(x: CMut<'a, u32>) -> Pin<&'a u32> { CMut::unchanging(x) }"),
    ("unique is unsafe", "fn f<'a>(x: CMut<'a, u32>) -> Pin<&'a mut u32> { CMut::unique(x) }"),
    ("unpin_unique is unsafe", "fn f<'a>(x: CMut<'a, u32>) -> &'a mut u32 { CMut::unpin_unique(x) }"),
    ("an immovable value cannot be got at unpinned", "fn f<'a>(x: CMut<'a, Still>) -> &'a mut Still { unsafe { CMut::unpin_unique(x) } }"),
    ("a const reference does not cross threads", "fn f(x: CRef<u32>) { send(x) }"),
    ("a const reference is not shared between threads", "fn f(x: CRef<u32>) { sync(x) }"),
    ("a mutable reference does not cross threads", "fn f(x: CMut<u32>) { send(x) }"),
    ("a mutable reference is not shared between threads", "fn f(x: CMut<u32>) { sync(x) }"),
    ("a reference does not outlive its target", "fn f() -> CRef<'static, u32> { let x = 1; CRef::from_ref(&x) }"),
    ("a mutable reference does not outlive its target", "fn f() -> CMut<'static, u32> { let mut x = 1; CMut::from_ref(&mut x) }"),
    ("a conversion does not extend the lifetime", "fn f<'a>(x: &'a u32) -> CRef<'static, u32> { x.into_cref() }"),
    ("a mutable conversion does not extend the lifetime", "fn f<'a>(x: &'a mut u32) -> CMut<'static, u32> { x.into_cmut() }"),
    ("dropping the mutability does not extend the lifetime", "fn f<'a>(x: CMut<'a, u32>) -> CRef<'static, u32> { CMut::into_const(x) }"),
    ("a reference keeps its target borrowed", "fn f() { let mut x = 1u32; let r = CRef::from_ref(&x); x = 2; let _ = CRef::as_ptr(r); }"),
    ("mutable references are invariant in the target", "fn f<'a, 'b, 'c: 'b>(x: CMut<'a, &'c u32>) -> CMut<'a, &'b u32> { x }"),
    ("only base classes can be upcast to", "fn f<'a>(x: &'a Derived) -> &'a Other { x.upcast() }"),
    ("nor by pointer", "unsafe fn f(x: *const Derived) -> *const Other { unsafe { x.unsafe_upcast() } }"),
    ("there is no downcast", "fn f<'a>(x: &'a Base) -> &'a Derived { x.upcast() }"),
    ("a shared reference does not upcast to a mutable one", "fn f<'a>(x: &'a Derived) -> Pin<&'a mut Base> { x.upcast() }"),
    ("a const pointer does not upcast to a mutable one", "unsafe fn f(x: *const Derived) -> *mut Base { unsafe { x.unsafe_upcast() } }"),
    ("an immovable base is only reached pinned", "fn f<'a>(x: &'a mut Derived) -> &'a mut PBase { x.upcast() }"),
    ("an upcast of an immovable derived class needs a pin", "unsafe impl Inherits<Base> for Still { unsafe fn upcast_ptr(p: *const Self) -> *const Base { core::ptr::null() } }  fn f<'a>(x: &'a mut Still) -> Pin<&'a mut Base> { x.upcast() }"),
    ("a pointer upcast is unsafe", "fn f(x: *const Derived) -> *const Base { x.unsafe_upcast() }"),
    ("an upcast does not extend the lifetime", "fn f<'a>(x: &'a Derived) -> &'static Base { x.upcast() }"),
    ("a mutable upcast does not extend the lifetime", "fn f<'a>(x: &'a mut Derived) -> Pin<&'static mut Base> { x.upcast() }"),
    ("an upcast keeps the derived object borrowed", "fn f(mut d: Derived) { let b: &mut Base = (&mut d).upcast(); let c = &d; b.0 = 1; let _ = c; }"),
]


def run_check(tier, work):
    return run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust")) + \
        run_rust_static("rules_of_references", os.path.join(HERE, "rust"), os.path.join(work, "static"), ("cref", "oops", "decltype_cast"), PRELUDE, ACCEPT, REJECT)
