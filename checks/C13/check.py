import os
from vp.kani import run_kani
from vp.rstatic import run_rust_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C13 (cargo kani on checks/C13/rust; rustc on the compile-time contracts)"
FUNCTIONS = ["ctor::Ctor::ctor of CtorMakeFallible, CtorErrInto, CtorThen, CtorMapErr, CtorOrElse, CtorExpect, CtorUnwrap, CtorUnwrapOrDefault, CtorError, FnCtor, Copy, RvalueReference, ByValue, ConstRvalueReference, RustMoveCtor, UnreachableCtor, ManuallyDropCtor and of values",
             "ctor::construct, reconstruct, copy, ctor_error", "ctor::Emplace::{emplace,try_emplace} of Box, Rc and Arc",
             "ctor::Slot::{uninit,new,clear,replace,try_replace,as_opt,as_opt_mut,drop,unsafe_new,unsafe_construct,try_unsafe_construct}",
             "ctor::{emplace!,try_emplace!,ctor!,raw_ctor!,mov!,const_mov!}", "ctor::macro_internal::{init_field,UnsafeDropGuard::drop}",
             "ctor::{CtorNew,Assign} blanket implementations", "#[recursively_pinned], PinnedDrop, project_pin, project_ref", "derive(CtorFrom_Default), derive(MoveAndAssignViaCopy)"]
TRUSTED = ["Kani 0.68.0 / CBMC", "rustc (type and borrow checker) for the compile-time contracts"]
ASSUMPTIONS = ["object types and aggregates are representative instances", "Kani does not model unwinding: what happens after a panic is only covered as far as the guards and flags that unwinding relies on are under contract"]

PRELUDE = """
#![feature(negative_impls)]
#![allow(unused)]
use ctor::*; use core::pin::Pin;
mod m {
    use ctor::*;
    #[recursively_pinned] pub struct S { pub a: u32, pub b: Still }
    #[recursively_pinned] pub struct T(pub u32, pub Still);
    #[recursively_pinned] pub struct Unit;
    #[recursively_pinned(?Unpin)] pub struct G<T> { pub t: T }
    #[recursively_pinned] pub struct Private { a: u32, pub(crate) b: u32 }
    pub struct Still(pub(crate) u32);
    impl !Unpin for Still {}
    pub struct Bare { pub a: u32 }
}
use m::*;
fn still() -> Ctor![Still] { RustMoveCtor::new(unsafe { core::mem::zeroed::<Still>() }) }
fn unpin<T: Unpin>() {}
fn pinned<T: RecursivelyPinned>() {}
"""
ACCEPT = [
    ("a recursively pinned struct is made by ctor!", "fn f() -> Ctor![S] { ctor!(S { a: 1, b: still() }) }  fn g() -> Ctor![T] { ctor!(T(1, still())) }  fn h() -> Ctor![Unit] { ctor!(Unit) }  fn i() -> Ctor![G<u8>] { ctor!(G::<u8> { t: 1 }) }  fn k() -> Ctor![S] { ctor!(m::S { b: still(), a: 1 }) }"),
    ("an infallible ctor can be emplaced", "fn f() -> Pin<Box<S>> { Box::emplace(ctor!(S { a: 1, b: still() })) }  fn g() { let x: Pin<&mut S> = emplace!(ctor!(S { a: 1, b: still() })); }"),
    ("a fallible ctor can be tried", "fn f(x: Ctor![S, Error = u8]) -> Result<Pin<Box<S>>, u8> { Box::try_emplace(x) }  fn g(x: Ctor![S, Error = u8]) { let r: Result<Pin<&mut S>, u8> = try_emplace!(x); }"),
    ("?Unpin makes the pinning conditional", "fn f() { unpin::<G<u8>>() }"),
    ("a union is made by raw_ctor!", "union U { a: u32, b: u64 }  fn f() -> Ctor![U] { unsafe { raw_ctor!(U { a: 1u32 }) } }"),
    ("a pinned destructor", "#[recursively_pinned(PinnedDrop)] struct D { x: u32 }  impl PinnedDrop for D { unsafe fn pinned_drop(self: Pin<&mut Self>) {} }"),
    ("fields are projected as pinned references", "fn f<'a>(x: Pin<&'a mut S>) -> (Pin<&'a mut u32>, Pin<&'a mut Still>) { let p = x.project_pin(); (p.a, p.b) }  fn g<'a>(x: Pin<&'a S>) -> (Pin<&'a u32>, Pin<&'a Still>) { let p = x.project_ref(); (p.a, p.b) }"),
    ("a generic field with a colliding lifetime name", "#[recursively_pinned] struct L<'proj> { x: &'proj u32 }  fn f<'a, 'b>(x: Pin<&'a mut L<'b>>) -> Pin<&'a mut &'b u32> { x.project_pin().x }"),
]
REJECT = [
    ("a recursively pinned struct is not made directly", "fn f(b: Still) -> S { S { a: 1, b } }"),
    ("nor with functional update syntax", "fn f(b: Still, s: S) -> S { S { a: 1, b, ..s } }"),
    ("nor a tuple struct", "fn f(b: Still) -> T { T(1, b) }"),
    ("nor a unit struct", "fn f() -> Unit { Unit }"),
    ("nor by naming the hidden field", "fn f(b: Still) -> S { S { a: 1, b, __must_use_ctor_to_initialize: [] } }"),
    ("nor a tuple struct with the hidden field", "fn f(b: Still) -> T { T(1, b, []) }"),
    ("nor a generic one", "fn f() -> G<u8> { G { t: 1 } }"),
    ("ctor! does not miss a field", "fn f() -> Ctor![S] { ctor!(S { a: 1 }) }"),
    ("ctor! does not miss a tuple field", "fn f() -> Ctor![T] { ctor!(T(1)) }"),
    ("ctor! does not miss every field", "fn f() -> Ctor![S] { ctor!(S {}) }"),
    ("ctor! has no extra field", "fn f() -> Ctor![S] { ctor!(S { a: 1, b: still(), c: 1 }) }"),
    ("ctor! has no repeated field", "fn f() -> Ctor![S] { ctor!(S { a: 1, b: still(), a: 2 }) }"),
    ("ctor! does not take the wrong type", "fn f() -> Ctor![S] { ctor!(S { a: 1u64, b: still() }) }"),
    ("ctor! does not take a fallible field", "fn f(x: Ctor![Still, Error = u8]) -> Ctor![S] { ctor!(S { a: 1, b: x }) }"),
    ("ctor! is for recursively pinned types", "fn f() -> Ctor![Bare] { ctor!(Bare { a: 1 }) }"),
    ("ctor! respects privacy", "fn f() -> Ctor![Private] { ctor!(Private { a: 1, b: 2 }) }"),
    ("raw_ctor! is unsafe", "fn f() -> Ctor![Bare] { raw_ctor!(Bare { a: 1 }) }"),
    ("raw_ctor! makes one field of a union", "union U { a: u32, b: u64 }  fn f() -> Ctor![U] { unsafe { raw_ctor!(U { a: 1u32, b: 2u64 }) } }"),
    ("raw_ctor! does not miss a field", "struct B { a: u32, b: u32 }  fn f() -> Ctor![B] { unsafe { raw_ctor!(B { a: 1u32 }) } }"),
    ("a recursively pinned type is not Unpin", "fn f() { unpin::<S>() }"),
    ("nor if all its fields are", "fn f() { unpin::<Private>() }"),
    ("nor if it has none", "fn f() { unpin::<Unit>() }"),
    ("?Unpin does not unpin an immovable field", "fn f() { unpin::<G<Still>>() }"),
    ("a slot is not Unpin", "fn f() { unpin::<Slot<u32>>() }"),
    ("recursively pinned types have no Drop", "#[recursively_pinned] struct D { x: u32 }  impl Drop for D { fn drop(&mut self) {} }"),
    ("nor a destructor that was not asked for", "#[recursively_pinned] struct D { x: u32 }  impl PinnedDrop for D { unsafe fn pinned_drop(self: Pin<&mut Self>) {} }"),
    ("nor lack one that was", "#[recursively_pinned(PinnedDrop)] struct D { x: u32 }"),
    ("nor have Drop besides the pinned one", "#[recursively_pinned(PinnedDrop)] struct D { x: u32 }  impl PinnedDrop for D { unsafe fn pinned_drop(self: Pin<&mut Self>) {} }  impl Drop for D { fn drop(&mut self) {} }"),
    ("a pinned destructor cannot be called", "fn f(x: Pin<&mut S>) { x.pinned_drop() }"),
    ("an arbitrary type is not recursively pinned", "fn f() { pinned::<Bare>() }"),
    ("the claim to be is unsafe", "impl RecursivelyPinned for Bare { type CtorInitializedFields = Bare; }"),
    ("Ctor is an unsafe trait", "struct C;  impl !SelfCtor for C {}  impl Ctor for C { type Output = u8; type Error = Infallible; unsafe fn ctor(self, _: *mut u8) -> Result<(), Infallible> { Ok(()) } }"),
    ("ctor is unsafe", "fn f(x: Ctor![u8], p: *mut u8) { let _ = x.ctor(p); }"),
    ("FnCtor::new is unsafe", "fn f() -> Ctor![u8] { FnCtor::new(|_: *mut u8| {}) }"),
    ("reconstruct is unsafe", "fn f(p: Pin<&mut Still>) { reconstruct(p, still()) }"),
    ("an immovable value is not returned by value", "fn f() -> Still { construct(still()) }"),
    ("a fallible ctor is not emplaced", "fn f(x: Ctor![S, Error = u8]) -> Pin<Box<S>> { Box::emplace(x) }"),
    ("nor in Rc", "fn f(x: Ctor![S, Error = u8]) -> Pin<std::rc::Rc<S>> { std::rc::Rc::emplace(x) }"),
    ("nor locally", "fn f(x: Ctor![S, Error = u8]) { let _ = emplace!(x); }"),
    ("nor constructed by value", "fn f(x: Ctor![u8, Error = u8]) -> u8 { construct(x) }"),
    ("nor put in a slot without a check", "fn f(s: Pin<&mut Slot<S>>, x: Ctor![S, Error = u8]) { s.replace(x); }"),
    ("an emplaced local does not escape", "fn f() -> Pin<&'static mut S> { emplace!(ctor!(S { a: 1, b: still() })) }"),
    ("the contents of a slot are pinned", "fn f(mut s: Pin<&mut Slot<Still>>) -> &mut Still { s.as_opt_mut().unwrap().get_mut() }"),
    ("a slot is only changed pinned", "fn f(s: &mut Slot<Still>) { s.clear() }"),
    ("a slot's contents are borrowed from it", "fn f(mut s: Pin<&mut Slot<u32>>) { let x = s.as_mut().replace(1); s.as_mut().clear(); let _ = *x; }"),
    ("a projected field stays pinned", "fn f<'a>(x: Pin<&'a mut S>) -> &'a mut Still { x.project_pin().b.get_mut() }"),
    ("a projection does not extend the lifetime", "fn f<'a>(x: Pin<&'a mut S>) -> Pin<&'static mut u32> { x.project_pin().a }"),
    ("a shared projection does not extend the lifetime", "fn f<'a>(x: Pin<&'a S>) -> Pin<&'static u32> { x.project_ref().a }"),
    ("a shared projection does not mutate", "fn f<'a>(x: Pin<&'a S>) -> Pin<&'a mut u32> { x.project_ref().a }"),
    ("a projection needs a pin", "fn f(x: &mut S) { let _ = x.project_pin(); }"),
    ("a projection is as private as the fields", "fn f<'a>(x: Pin<&'a mut Private>) -> Pin<&'a mut u32> { x.project_pin().a }"),
    ("an immovable value is only moved from pinned", "fn f(mut x: &mut Still) { let _ = mov!(x); }"),
    ("a shared reference is not moved from", "fn f(x: &u32) { let mut x = x; let _ = mov!(x); }"),
    ("a pinned shared reference is not moved from", "fn f(mut x: Pin<&u32>) { let _ = mov!(x); }"),
    ("an rvalue reference keeps its target borrowed", "fn f(mut x: Pin<Box<u32>>) { let r = mov!(x); drop(x); let _ = *r; }"),
    ("an rvalue reference gives no longer borrow than its own", "fn f<'a>(r: &RvalueReference<'a, u32>) -> &'a u32 { r.get_ref() }"),
    ("nor as const", "fn f<'a, 'b>(r: &'b RvalueReference<'a, u32>) -> ConstRvalueReference<'a, u32> { r.as_const() }"),
    ("a const rvalue reference is not mutable", "fn f<'a>(r: ConstRvalueReference<'a, u32>) -> &'a mut u32 { &mut *r }"),
    ("an immovable value is not copied without its copy constructor", "fn f(x: &Still) -> Ctor![Still] { copy(x) }"),
    ("an immovable value is not assigned by moving Rust values", "fn f(x: Pin<&mut Still>, y: &Still) { x.assign(y) }"),
]


def run_check(tier, work):
    return run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust")) + \
        run_rust_static("rules_of_construction", os.path.join(HERE, "rust"), os.path.join(work, "static"), ("ctor",), PRELUDE, ACCEPT, REJECT)
