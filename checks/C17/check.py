import os
from vp.kani import run_kani
from vp.cpp import run_cpp
from vp.rstatic import run_rust_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C17 (cargo kani on checks/C17/rust; clang++ -O0 | opt | ir2c | cbmc on checks/C17/cpp; rustc on the compile-time contracts)"
FUNCTIONS = ["cc_std::std::unique_ptr::{new,get,release,as_ref,as_mut,as_pin,drop}", "cc_std::std::virtual_unique_ptr::{new,get,release,as_ref,as_mut,as_pin,drop}",
             "cc_std::std::shared_ptr::{new,project,project_unchecked,from_box,from_pinned_box,from_arc,from_ptr_and_deleter,from_raw_parts,into_raw_parts,release,is_null,as_ptr,try_as_ref,use_count,owner_equal,clone,drop}, SharedInner::deleter",
             "cc_std::std::optional::drop", "std_allocator.h: cpp_new, cpp_delete, shared_ptr_ref, shared_ptr_unref, shared_ptr_use_count, DynControlBlock::{Emplace,__on_zero_shared,__on_zero_shared_weak}",
             "StdAllocator::{allocate,deallocate,alloc,dealloc,clone}", "__crubit_invoke_dyn_control_block_deleter"]
TRUSTED = ["Kani 0.68.0 / CBMC", "rustc (type and borrow checker) for the compile-time contracts", "clang 18 front end", "lib/vp/ir2c.py"]
ASSUMPTIONS = ["C++'s operator new and delete and std::__shared_weak_count are replaced by models of their C++ contracts, which check how they are called",
               "object types are representative instances; histories of up to two owners and one watcher (each step is proved for any object)"]

PRELUDE = """
#![feature(negative_impls)]
#![allow(unused)]
use cc_std::std::*; use core::pin::Pin;
struct Still; impl !Unpin for Still {}
struct Local; impl !Send for Local {} impl !Sync for Local {}
struct SendOnly; impl !Sync for SendOnly {}
struct SyncOnly; impl !Send for SyncOnly {}
struct Poly; unsafe impl operator::Delete for Poly { unsafe fn delete(p: *mut Self) {} }
struct PolyLocal; impl !Send for PolyLocal {} impl !Sync for PolyLocal {} unsafe impl operator::Delete for PolyLocal { unsafe fn delete(p: *mut Self) {} }
struct Mut<'a>(&'a mut u32);
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn unpin<T: Unpin>() {}
"""
ACCEPT = [
    ("a unique_ptr is as thread-safe as its object", "fn f() { send::<unique_ptr<SendOnly>>(); sync::<unique_ptr<SyncOnly>>(); send::<virtual_unique_ptr<Poly>>(); sync::<virtual_unique_ptr<Poly>>(); }"),
    ("a shared_ptr is thread-safe if its object is", "fn f() { send::<shared_ptr<u8>>(); sync::<shared_ptr<u8>>(); }"),
    ("an immovable object is reached pinned", "fn f(x: &mut unique_ptr<Still>) -> Option<Pin<&mut Still>> { x.as_pin() }  fn g(x: &mut unique_ptr<Still>) -> Option<&Still> { x.as_ref() }"),
    ("smart pointers move", "fn f() { unpin::<unique_ptr<Still>>(); unpin::<shared_ptr<Still>>(); }"),
    ("a shared_ptr is cloned whatever it points to", "fn f(x: &shared_ptr<Still>) -> shared_ptr<Still> { x.clone() }"),
    ("a borrowed object is shared as long as it lives", "fn f<'a>(x: Mut<'a>) -> shared_ptr<Mut<'a>> { shared_ptr::new(x) }  fn g<'a>(x: Box<Mut<'a>>) -> shared_ptr<Mut<'a>> { shared_ptr::from_box(x) }"),
]
REJECT = [
    ("a unique_ptr is made of a raw pointer only unsafely", "fn f(p: *mut u8) -> unique_ptr<u8> { unique_ptr::new(p) }"),
    ("so is a virtual one", "fn f(p: *mut Poly) -> virtual_unique_ptr<Poly> { virtual_unique_ptr::new(p) }"),
    ("its pointer is private", "fn f(p: *mut u8) -> unique_ptr<u8> { unique_ptr { ptr: p } }"),
    ("a unique_ptr is not cloned", "fn f(x: &unique_ptr<u8>) -> unique_ptr<u8> { x.clone() }"),
    ("nor copied", "fn f(x: unique_ptr<u8>) -> (unique_ptr<u8>, unique_ptr<u8>) { (x, x) }"),
    ("nor a virtual one", "fn f(x: virtual_unique_ptr<Poly>) -> (virtual_unique_ptr<Poly>, virtual_unique_ptr<Poly>) { (x, x) }"),
    ("a shared unique_ptr gives no reference", "fn f(x: &unique_ptr<u8>) -> Option<&u8> { x.as_ref() }"),
    ("nor a virtual one, shared", "fn f(x: &virtual_unique_ptr<Poly>) -> Option<&Poly> { x.as_ref() }"),
    ("nor is it released", "fn f(x: &unique_ptr<u8>) { x.release(); }"),
    ("an immovable object is not reached unpinned", "fn f(x: &mut unique_ptr<Still>) -> Option<&mut Still> { x.as_mut() }"),
    ("nor through a virtual one", "struct P; impl !Unpin for P {} unsafe impl operator::Delete for P { unsafe fn delete(p: *mut Self) {} }  fn f(x: &mut virtual_unique_ptr<P>) -> Option<&mut P> { x.as_mut() }"),
    ("a reference does not outlive the borrow", "fn f(x: &mut unique_ptr<u8>) -> &'static u8 { x.as_ref().unwrap() }"),
    ("nor a mutable one", "fn f(x: &mut unique_ptr<u8>) -> &'static mut u8 { x.as_mut().unwrap() }"),
    ("nor a pinned one", "fn f(x: &mut unique_ptr<u8>) -> Pin<&'static mut u8> { x.as_pin().unwrap() }"),
    ("a virtual unique_ptr needs delete", "fn f(x: virtual_unique_ptr<u8>) {}"),
    ("Delete is an unsafe trait", "struct P;  impl operator::Delete for P { unsafe fn delete(p: *mut Self) {} }"),
    ("delete is unsafe", "fn f(p: *mut Poly) { <Poly as operator::Delete>::delete(p) }"),
    ("a unique_ptr of a local object is not sent", "fn f() { send::<unique_ptr<Local>>() }"),
    ("nor shared", "fn f() { sync::<unique_ptr<Local>>() }"),
    ("nor sent if it is only shareable", "fn f() { send::<unique_ptr<SyncOnly>>() }"),
    ("nor shared if it is only sendable", "fn f() { sync::<unique_ptr<SendOnly>>() }"),
    ("nor a virtual one sent", "fn f() { send::<virtual_unique_ptr<PolyLocal>>() }"),
    ("nor a virtual one shared", "fn f() { sync::<virtual_unique_ptr<PolyLocal>>() }"),
    ("a shared_ptr of an unshareable object is not sent", "fn f() { send::<shared_ptr<SendOnly>>() }"),
    ("nor of an unsendable one", "fn f() { send::<shared_ptr<SyncOnly>>() }"),
    ("nor shared", "fn f() { sync::<shared_ptr<SyncOnly>>() }"),
    ("nor shared if it is only sendable (shared_ptr)", "fn f() { sync::<shared_ptr<SendOnly>>() }"),
    ("a shared_ptr is made of raw parts only unsafely", "fn f(x: shared_ptr<u8>) -> shared_ptr<u8> { let (p, c) = shared_ptr::into_raw_parts(x); shared_ptr::from_raw_parts(p, c) }"),
    ("and with a deleter", "fn f(p: *mut u8) -> shared_ptr<u8> { shared_ptr::from_ptr_and_deleter(p, |_| {}) }"),
    ("a deleter is sendable", "fn f(p: *mut u8, l: Local) -> shared_ptr<u8> { unsafe { shared_ptr::from_ptr_and_deleter(p, move |_| { let l = l; }) } }"),
    ("a deleter borrows nothing", "fn f(p: *mut u8, l: &u8) -> shared_ptr<u8> { unsafe { shared_ptr::from_ptr_and_deleter(p, move |_| { let l = l; }) } }"),
    ("a shared object is not mutable", "fn f(x: &mut shared_ptr<u8>) -> &mut u8 { shared_ptr::try_as_ref(x).unwrap() }"),
    ("a reference does not outlive its owner", "fn f(x: &shared_ptr<u8>) -> &'static u8 { shared_ptr::try_as_ref(x).unwrap() }"),
    ("a projection does not forget a lifetime", "fn f<'a>(x: shared_ptr<Mut<'a>>) -> shared_ptr<u32> { shared_ptr::project(x, |m| &*m.0) }"),
    ("unless unsafely", "fn f<'a>(x: shared_ptr<Mut<'a>>) -> shared_ptr<u32> { shared_ptr::project_unchecked(x, |m| &*m.0) }"),
    ("a projection points into the object", "fn f<'a>(x: shared_ptr<u32>, y: &'a u32) -> shared_ptr<u32> { shared_ptr::project(x, |_| y) }"),
    ("sharing a box does not forget a lifetime", "fn f<'a>(x: Box<Mut<'a>>) -> shared_ptr<Mut<'static>> { shared_ptr::from_box(x) }"),
    ("nor an Arc", "fn f<'a>(x: std::sync::Arc<Mut<'a>>) -> shared_ptr<Mut<'static>> { shared_ptr::from_arc(x) }"),
]


def run_check(tier, work):
    def cpp(sub, flags):
        return run_cpp(os.path.join(HERE, "cpp/std_allocator.cc"), os.path.join(work, sub), flags=["-I", os.path.join(HERE, "cpp/fake"), *flags])
    return cpp("cpp", []) + cpp("cpp_sized", ["-fsized-deallocation"]) + run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust"), included=True, extra=["--cbmc-args", "--memory-leak-check"]) + \
        run_rust_static("rules_of_ownership", os.path.join(HERE, "rust"), os.path.join(work, "static"), ("cc_std", "operator"), PRELUDE, ACCEPT, REJECT)
