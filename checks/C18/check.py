import os, re
from vp.kani import run_kani
from vp.rstatic import run_rust_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C18 (cargo kani on checks/C18/rust for each layout and with ASan's annotations; rustc on the compile-time contracts)"
FUNCTIONS = ["cc_std::std::vector::{new,with_capacity,len,capacity,is_empty,reserve,reserve_exact,try_reserve,try_reserve_exact,shrink_to_fit,shrink_to,push,insert,append,swap_remove,remove,pop,clear,truncate,dedup,dedup_by,dedup_by_key,retain,retain_mut,split_off,into_vec,as_ptr,as_mut_ptr,as_slice,as_mut_slice,extend_from_slice,extend_from_within,resize,resize_with,set_len,prepare_to_write_into_tail,to_vec,mutate_self_as_vec}",
             "vector: Drop, Clone, Index, IndexMut, Deref, DerefMut, AsRef, AsMut, Borrow, BorrowMut, Extend, FromIterator, IntoIterator, From, PartialEq, PartialOrd, Ord, Hash, Default, VectorIntoIter",
             "StdAllocator::{allocate,deallocate}"]
TRUSTED = ["Kani 0.68.0 / CBMC", "rustc (type and borrow checker) for the compile-time contracts"]
ASSUMPTIONS = ["C++'s operator new and delete and ASan's container annotations are replaced by models of their contracts, which check how they are called",
               "vectors of up to four elements (bounded), whatever the elements are; element types are representative instances, of size greater than zero"]

PRELUDE = """
#![allow(unused)]
use cc_std::std::vector; use std::cell::Cell; use std::rc::Rc;
struct Still; impl !Unpin for Still {}
struct SendOnly; impl !Sync for SendOnly {}
struct SyncOnly; impl !Send for SyncOnly {}
fn send<T: Send>() {}
fn sync<T: Sync>() {}
"""
ACCEPT = [
    ("a vector is as thread-safe as its elements", "fn f() { send::<vector<SendOnly>>(); sync::<vector<SyncOnly>>(); }"),
    ("a vector is covariant", "fn f<'a>(x: vector<&'static u8>) -> vector<&'a u8> { x }"),
    ("a vector of immovable elements is read", "fn f(x: &vector<Still>) -> (usize, &[Still]) { (x.len(), &**x) }"),
]
REJECT = [
    ("a vector of unsendable elements is not sent", "fn f() { send::<vector<SyncOnly>>() }"),
    ("nor shared if they are not shareable", "fn f() { sync::<vector<SendOnly>>() }"),
    ("nor is its iterator sent", "fn f(x: vector<Rc<u8>>) { fn g<T: Send>(t: T) {} g(x.into_iter()) }"),
    ("an immovable element is not pushed", "fn f(x: &mut vector<Still>, s: Still) { x.push(s) }"),
    ("nor popped", "fn f(x: &mut vector<Still>) -> Option<Still> { x.pop() }"),
    ("nor moved by growth", "fn f(x: &mut vector<Still>) { x.reserve(1) }"),
    ("nor moved out by iteration", "fn f(x: vector<Still>) { for s in x {} }"),
    ("nor moved to a Vec", "fn f(x: vector<Still>) -> Vec<Still> { x.into_vec() }"),
    ("nor reached mutably by index", "fn f(x: &mut vector<Still>) -> &mut Still { &mut x[0] }"),
    ("nor swapped as a slice", "fn f(x: &mut vector<Still>) { x.as_mut_slice().swap(0, 1) }"),
    ("nor through a mutable reference", "fn f(x: &mut vector<Still>) { x.swap(0, 1) }"),
    ("nor through a mutable iterator", "fn f(x: &mut vector<Still>) { for s in x.iter_mut() {} }"),
    ("an element does not outlive the borrow", "fn f(x: &vector<u8>) -> &'static u8 { &x[0] }"),
    ("nor a slice", "fn f(x: &vector<u8>) -> &'static [u8] { x.as_slice() }"),
    ("a slice is not held while the vector grows", "fn f(x: &mut vector<u8>) { let s = x.as_slice(); x.push(1); drop(s[0]); }"),
    ("nor an element", "fn f(x: &mut vector<u8>) { let s = &mut x[0]; x.clear(); *s = 1; }"),
    ("a vector is not mutably invariant", "fn f<'a, 'b>(x: &'b mut vector<&'static u8>) -> &'b mut vector<&'a u8> { x }"),
    ("its length is set only unsafely", "fn f(x: &mut vector<u8>) { x.set_len(1) }"),
    ("its fields are private", "fn f(x: &mut vector<u8>) { x.begin = core::ptr::null_mut() }"),
    ("a shared vector is not mutable", "fn f(x: &vector<u8>) -> &mut [u8] { x.as_mut_slice() }"),
]


def run_check(tier, work):
    rust = os.path.join(HERE, "rust")
    asan = {"deps/cc_std/src/std/vector_asan.rs": ("support/cc_std_impl/vector.rs", "", [('sanitize = "address"', 'feature = "asan"'),
        (re.compile(r"(?<!fn )\b(__sanitizer_annotate_contiguous_container)\("), r"crate::ledger::\1(")])}
    results = []
    for name, extra, stage in [("three_pointers", [], None), ("lengths", ["--features", "len_capacity_encoding"], None), ("asan", ["--features", "asan"], asan)]:
        for r in run_kani(rust, os.path.join(work, name), stage=stage, included=True, extra=extra):
            r.name = name + ": " + r.name
            results.append(r)
    return results + run_rust_static("rules_of_elements", rust, os.path.join(work, "static"), ("cc_std",), "#![feature(negative_impls)]" + PRELUDE, ACCEPT, REJECT)
