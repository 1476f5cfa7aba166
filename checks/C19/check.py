import os
from vp.kani import run_kani
from vp.cpp import run_cpp
from vp.rstatic import run_rust_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C19 (cargo kani on checks/C19/rust; clang++ -O0 | opt | ir2c | cbmc on checks/C19/cpp; rustc on the compile-time contracts)"
FUNCTIONS = ["cc_std::std::string_wrapper::{as_slice,to_vec,to_str,to_string,as_os_str,to_os_string,as_void_ptr,as_mut_void_ptr,eq,default,clone,drop,from (5),deref,as_ref,cpp_coerce (2)}",
             "BoxedCppStringAbi::{encode,decode}", "rust_string_to_cpp_string, cpp_string_to_rust_string",
             "cc_std::std::new_string::{ctor_new (5),drop,as_slice,as_mut_slice,as_ptr,as_mut_ptr,to_vec,to_str,to_string,deref,as_ref,eq (5),cmp,partial_cmp,hash}",
             "cc_std::std::string_view::{from (4),as_raw,into_raw,as_ptr,as_bytes,as_slice,to_vec,as_os_str,to_os_string,len,is_empty,to_str,to_string,contains,as_ref,deref,eq (5),cmp,partial_cmp,hash,fmt}",
             "cc_std::std::raw_string_view::{from (5),as_raw_bytes,to_str,len,as_live}", "cc_std::slice_ptr::{get_raw_parts,get_raw_parts_mut}", "conversion_function_helpers.h: all functions", "lossy_utf8::debug_bytes, LossyUtf8Display::fmt"]
TRUSTED = ["Kani 0.68.0 / CBMC", "rustc (type and borrow checker) for the compile-time contracts", "clang 18 front end", "lib/vp/ir2c.py"]
ASSUMPTIONS = ["C++'s std::string is replaced by a model of its contract (contents, address, copies, moves, destructions), which checks how it is called",
               "harnesses named b_ are bounded: strings of up to three bytes, of any contents; views made by C++ are proved for any length",
               "which byte sequences are UTF-8 is left to Rust's standard library"]
PRELUDE = """
#![allow(unused, deprecated)]
use cc_std::std::*; use core::pin::Pin; use ctor::CtorNew; use bridge_rust::{CrubitAbi, Encoder, Decoder};
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn unpin<T: Unpin>() {}
"""
ACCEPT = [
    ("owned strings go to any thread", "fn f() { send::<string_wrapper>(); sync::<string_wrapper>(); send::<new_string>(); sync::<new_string>(); }"),
    ("a view outlives the value that names it", "fn f<'a>(x: &'a [u8]) -> &'a [u8] { let v = string_view::from(x); v.as_bytes() }  fn g<'a>(v: &string_view<'a>) -> Result<&'a str, core::str::Utf8Error> { v.to_str() }"),
    ("a view is copied", "fn f<'a>(x: string_view<'a>) -> (string_view<'a>, string_view<'a>) { (x, x) }"),
    ("a string is written through a pin", "fn f<'a>(x: Pin<&'a mut new_string>) -> &'a mut [u8] { x.as_mut_slice() }"),
    ("a string is read where it is", "fn f<'a>(x: &'a new_string) -> &'a [u8] { x.as_slice() }  fn g<'a>(x: &'a string_wrapper) -> Result<&'a str, core::str::Utf8Error> { x.to_str() }"),
    ("the literal of a program is a static view", "static S: &str = \"a\";  fn f() -> string_view<'static> { string_view::from(S) }"),
]
REJECT = [
    ("a C++ string in place does not move", "fn f() { unpin::<new_string>() }"),
    ("nor is its buffer reached unpinned", "fn f(x: &mut new_string) -> &mut [u8] { x.as_mut_slice() }"),
    ("nor its address for writing", "fn f(x: &mut new_string) -> *mut new_string { x.as_mut_ptr() }"),
    ("a pinned string gives no movable reference", "fn f(x: Pin<&mut new_string>) -> &mut new_string { Pin::into_inner(x) }"),
    ("it is not copied bit by bit", "fn f(x: &new_string) -> new_string { *x }"),
    ("nor cloned into a value", "fn f(x: &new_string) -> new_string { Clone::clone(x) }"),
    ("a constructor does not outlive its text", "fn f() -> impl ctor::Ctor<Output = new_string> { let v = vec![1u8]; new_string::ctor_new(&v[..]) }"),
    ("a slice does not outlive its string", "fn f(x: &new_string) -> &'static [u8] { x.as_slice() }"),
    ("nor a mutable one", "fn f(x: Pin<&mut new_string>) -> &'static mut [u8] { x.as_mut_slice() }"),
    ("nor a text", "fn f(x: &new_string) -> &'static str { x.to_str().unwrap() }"),
    ("a slice does not outlive its wrapper", "fn f(x: string_wrapper) -> &'static [u8] { x.as_slice() }"),
    ("nor a text of a wrapper", "fn f(x: &string_wrapper) -> &'static str { x.to_str().unwrap() }"),
    ("nor its OS string", "fn f(x: &string_wrapper) -> &'static std::ffi::OsStr { x.as_os_str() }"),
    ("nor what displays it", "fn f(x: string_wrapper) -> impl core::fmt::Display { x.display() }"),
    ("nor what displays a string in place", "fn f(x: &new_string) -> Box<dyn core::fmt::Display> { Box::new(x.display()) }"),
    ("a wrapper is not copied", "fn f(x: string_wrapper) -> (string_wrapper, string_wrapper) { (x, x) }"),
    ("its pointer is private", "fn f(p: core::ptr::NonNull<core::ffi::c_void>) -> string_wrapper { string_wrapper { owned_cpp_string: p } }"),
    ("a shared wrapper is not written", "fn f(x: &string_wrapper) { x.as_mut_void_ptr(); }"),
    ("a wrapper is changed while it is borrowed by no one", "fn f(x: &mut string_wrapper) { let s = x.as_slice(); x.as_mut_void_ptr(); s.len(); }"),
    ("a view does not outlive its slice", "fn f(x: &[u8]) -> string_view<'static> { string_view::from(x) }"),
    ("nor its array", "fn f(x: &[u8; 2]) -> string_view<'static> { string_view::from(x) }"),
    ("nor its text", "fn f(x: &str) -> string_view<'static> { string_view::from(x) }"),
    ("nor its C string", "fn f(x: &core::ffi::CStr) -> string_view<'static> { string_view::from(x) }"),
    ("the bytes of a view do not outlive it", "fn f(x: &string_view<'_>) -> &'static [u8] { x.as_bytes() }"),
    ("nor its slice", "fn f(x: &string_view<'_>) -> &'static [u8] { x.as_slice() }"),
    ("nor its text, read", "fn f(x: &string_view<'_>) -> &'static str { x.to_str().unwrap() }"),
    ("nor its OS string, read", "fn f(x: &string_view<'_>) -> &'static std::ffi::OsStr { x.as_os_str() }"),
    ("nor its chunks", "fn f(x: &string_view<'_>) -> core::str::Utf8Chunks<'static> { x.utf8_chunks() }"),
    ("nor what displays a view", "fn f(x: string_view<'_>) -> Box<dyn core::fmt::Display> { Box::new(x.display()) }"),
    ("a string is not destroyed under its view", "fn f(s: string_wrapper) { let v = string_view::from(s.as_slice()); drop(s); v.len(); }"),
    ("C++'s view is trusted only unsafely", "fn f(x: &raw_string_view) -> string_view<'_> { x.as_live() }"),
    ("or as static", "fn f(x: &'static raw_string_view) -> string_view<'static> { x.as_static_live() }"),
    ("or measured", "fn f(x: &raw_string_view) -> usize { x.len() }"),
    ("or read as text", "fn f(x: &raw_string_view) { x.to_str(); }"),
    ("no view is made of a raw one without saying so", "fn f(x: raw_string_view) -> string_view<'static> { string_view { raw: x, phantom_data: core::marker::PhantomData } }"),
    ("a view shorter than static is not static", "fn f<'a>(x: string_view<'a>) -> string_view<'static> { x }"),
    ("the raw converters are unsafe", "fn f(a: *const core::ffi::c_void, b: *mut core::ffi::c_void) { rust_string_to_cpp_string(a, b) }"),
    ("both of them", "fn f(a: *mut core::ffi::c_void, b: *mut core::ffi::c_void) { cpp_string_to_rust_string(a, b) }"),
    ("decoding a string is unsafe", "fn f(d: &mut Decoder) -> string_wrapper { BoxedCppStringAbi.decode(d) }"),
]


def run_check(tier, work):
    return run_cpp(os.path.join(HERE, "cpp/helpers.cc"), os.path.join(work, "cpp"), flags=["-I", os.path.join(HERE, "cpp/fake")]) + \
        run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust"), included=True) + \
        run_rust_static("rules_of_strings", os.path.join(HERE, "rust"), os.path.join(work, "static"), ("cc_std", "ctor", "bridge_rust"), PRELUDE, ACCEPT, REJECT)
