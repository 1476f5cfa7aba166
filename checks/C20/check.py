import os, re
from vp.cpp import run_cpp
from vp.kani import run_kani
from vp.rstatic import run_rust_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C20 (cargo kani on checks/C20/rust; clang++ -O0 | opt | ir2c | cbmc on checks/C20/cpp; rustc on the compile-time contracts)"
FUNCTIONS = ["erased_future::ErasedFuture::poll_erased", "dyn_erased_future::{DynErasedFuture::new,rs_std_dyn_erased_future_init,rs_std_dyn_erased_future_drop,rs_std_dyn_erased_future_poll} and its waker table",
             "dyn_future::DynFuture::{from_future,poll,discard,is_completed_or_discarded,default,into} and its waker table", "dyn_callable::{manager,moved_from_panic,DynCallableAbi::{new,encode,decode}}",
             "rs_std::DynCallable<Sig>: constructors, moves, swap, operator(), operator bool, comparisons with nullptr, conversion to absl::AnyInvocable, destructor; internal_dyn_callable::DynCallableAbi::{Encode,Decode}; ManagedCallable; Impl (Fn, FnMut, FnOnce)",
             "waker.cc and cpp_waker.cc: all functions", "crubit::DynErasedFuture<T>: move constructor, Poll, destructor"]
TRUSTED = ["Kani 0.68.0 / CBMC", "rustc (type and borrow checker) for the compile-time contracts", "clang 18 front end", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["absl::AnyInvocable and its internal types are replaced by a model of the contract DynCallable relies on (abseil is not installed)",
               "across the language border each side is verified against the contract of the other",
               "futures and callables are scripted representatives: any result, pending once or twice, every use of the waker"]
PRELUDE = """
#![allow(unused)]
use dyn_erased_future::DynErasedFuture; use dyn_future::DynFuture; use erased_future::ErasedFuture; use dyn_callable_rs::*;
use std::{future::Future, pin::Pin, task::{Context, Poll}, rc::Rc};
struct Local(Rc<u8>); impl Future for Local { type Output = (); fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> { Poll::Pending } }
struct Borrows<'a>(&'a u8); impl Future for Borrows<'_> { type Output = (); fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> { Poll::Pending } }
fn send<T: Send>() {}
"""
ACCEPT = [
    ("a future that borrows is held as long as it may", "fn f<'a>(x: &'a u8) -> DynErasedFuture<'a> { DynErasedFuture::new(Borrows(x)) }  fn g<'a>(x: &'a u8) -> DynFuture<'a> { DynFuture::from_future(Borrows(x)) }"),
    ("any sendable future is erased", "fn f<F: Future<Output = String> + Send>(x: Pin<&mut F>) -> Pin<&mut (dyn ErasedFuture + Send + '_)> { x }"),
    ("erased futures are sent", "fn f() { send::<DynErasedFuture<'static>>(); send::<DynFuture<'static>>(); }"),
]
REJECT = [
    ("a local future is not erased", "fn f(x: Local) -> DynErasedFuture<'static> { DynErasedFuture::new(x) }"),
    ("nor made a DynFuture", "fn f(x: Local) -> DynFuture<'static> { DynFuture::from_future(x) }"),
    ("nor polled erased", "fn f(x: Pin<&mut Local>) -> Pin<&mut (dyn ErasedFuture + '_)> { x }"),
    ("an erased future does not outlive what it borrows", "fn f(x: &u8) -> DynErasedFuture<'static> { DynErasedFuture::new(Borrows(x)) }"),
    ("nor a DynFuture", "fn f(x: &u8) -> DynFuture<'static> { DynFuture::from_future(Borrows(x)) }"),
    ("nor what is taken out of it", "fn f<'a>(x: DynFuture<'a>) -> Option<Pin<Box<dyn Future<Output = ()> + Send + 'static>>> { x.into() }"),
    ("a DynFuture has no result", "fn f(x: std::future::Ready<u8>) -> DynFuture<'static> { DynFuture::from_future(x) }"),
    ("only futures are erased futures", "struct S; impl ErasedFuture for S { unsafe fn poll_erased(self: Pin<&mut Self>, c: &mut Context<'_>, o: *mut ()) -> Poll<()> { Poll::Pending } }"),
    ("polling an erased future is unsafe", "fn f(x: Pin<&mut std::future::Ready<u8>>, c: &mut Context<'_>, o: *mut ()) { x.poll_erased(c, o); }"),
    ("polling with C++'s waker is unsafe", "fn f(x: &mut DynFuture<'_>, w: *const cpp_waker::rs_std::CppWaker) { x.poll(w); }"),
    ("a DynFuture in use is not shared", "fn f(x: &DynFuture<'_>) { x.discard(); }"),
    ("managing a callable is unsafe", "fn f(p: *mut Box<dyn Fn()>) { manager::<dyn Fn()>(FunctionToCall::Dispose, p, p) }"),
    ("the fallback of a callable is private", "fn f(x: DynCallableAbi<dyn Fn()>) -> Box<dyn Fn()> { x.fallback }"),
    ("decoding a callable is unsafe", "use bridge_rust::*; fn f(x: DynCallableAbi<dyn Fn()>, d: &mut Decoder) -> Box<dyn Fn()> { x.decode(d) }"),
    ("a boxed erased future is private", "fn f(x: DynErasedFuture<'static>) { x.0; }"),
]
# C++'s waker functions are called through their contract (deps/cpp_waker).
EXTERN = (re.compile(r'unsafe\s+extern\s+"C"\s*\{[^{}]*\}'), "use cpp_waker::model::*;")
EXPORTS = """
pub mod vp {
    pub unsafe fn init(p: *mut super::DynErasedFuture<'_>) { unsafe { super::rs_std_dyn_erased_future_init(p) } }
    pub unsafe fn drop(p: *mut super::DynErasedFuture<'_>) { unsafe { super::rs_std_dyn_erased_future_drop(p) } }
    pub unsafe fn poll(p: &mut super::DynErasedFuture<'_>, w: *const (), o: *mut ()) -> bool { unsafe { super::rs_std_dyn_erased_future_poll(p, w, o) } }
}
"""
STAGE = {"deps/dyn_erased_future/src/lib.rs": ("support/rs_std/dyn_erased_future.rs", EXPORTS, [EXTERN, ("#![deny(missing_docs, unsafe_op_in_unsafe_fn)]", "")]),
         "deps/dyn_future/src/lib.rs": ("support/rs_std/dyn_future.rs", "", [EXTERN, ("#![deny(missing_docs, unsafe_op_in_unsafe_fn)]", "")])}


def run_check(tier, work):
    return run_cpp(os.path.join(HERE, "cpp/callable.cc"), os.path.join(work, "cpp"), flags=["-I", os.path.join(HERE, "cpp/fake")], unwind=30) + \
        run_cpp(os.path.join(HERE, "cpp/waker.cc"), os.path.join(work, "cpp"), unwind=30) + \
        run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust"), stage=STAGE) + \
        run_rust_static("rules_of_callables", os.path.join(HERE, "static"), os.path.join(work, "static"),
                        ("erased_future", "dyn_erased_future", "dyn_future", "dyn_callable_rs", "bridge_rust", "cpp_waker"), PRELUDE, ACCEPT, REJECT)
