//! cc_std as the generator assembles it: the hand-written sources of /repo around
//! the bindings of C++'s allocation functions, shared_ptr control blocks, strings
//! and string views. These bindings are modelled here by their C++ contracts; the
//! models check that they are called as C++ requires.
#![feature(allocator_api, cfg_sanitize, type_alias_impl_trait, impl_trait_in_assoc_type)]
#![allow(warnings)]

/// What the C++ side has seen.
pub mod ledger {
    pub const MAX: usize = 8;
    /// Live blocks of operator new: address, size, alignment.
    pub static mut BLOCKS: ([(usize, usize, usize); MAX], u64) = ([(0, 0, 0); MAX], 0x5EED0009);
    pub static mut LIVE: (usize, u64) = (0, 0x5EED000A);
    pub static mut NEWS: (usize, u64) = (0, 0x5EED000B);
    /// operator new returns null (without exceptions).
    pub static mut EXHAUSTED: (bool, u64) = (false, 0x5EED000C);
    pub fn live() -> usize { unsafe { LIVE.0 } }
    pub fn news() -> usize { unsafe { NEWS.0 } }
    /// The block at p: its size and alignment.
    pub fn block(p: *const u8) -> Option<(usize, usize)> {
        let mut i = 0;
        while i < MAX { unsafe { if BLOCKS.0[i].0 == p as usize && BLOCKS.0[i].0 != 0 { return Some((BLOCKS.0[i].1, BLOCKS.0[i].2)); } } i += 1; }
        None
    }
    /// ASan's container annotation: how much of each block may be accessed (all, unless it was said).
    pub static mut USABLE: ([usize; MAX], u64) = ([usize::MAX; MAX], 0x5EED000D);
    fn index(p: *const u8) -> usize { let mut i = 0; while i < MAX { unsafe { if BLOCKS.0[i].0 == p as usize { return i; } } i += 1; } panic!("only blocks of operator new are annotated"); }
    #[cfg(feature = "asan")]
    pub fn poisoned_after(p: *const u8, n: usize) { unsafe { USABLE.0[index(p)] = n; } }
    #[cfg(not(feature = "asan"))]
    pub fn poisoned_after(_: *const u8, _: usize) {}
    /// C++ expects the memory beyond the elements to be annotated as unusable.
    #[cfg(feature = "asan")]
    pub fn check_tail(p: *const u8, n: usize) { unsafe { let i = index(p); assert!(USABLE.0[i] == n || n == BLOCKS.0[i].1 && USABLE.0[i] == usize::MAX, "the tail of the vector is poisoned, as C++ expects"); } }
    #[cfg(not(feature = "asan"))]
    pub fn check_tail(_: *const u8, _: usize) {}
    #[cfg(feature = "asan")]
    pub unsafe extern "C" fn __sanitizer_annotate_contiguous_container(beg: *const core::ffi::c_void, end: *const core::ffi::c_void, old_mid: *const core::ffi::c_void, new_mid: *const core::ffi::c_void) {
        if beg.is_null() { assert!(end.is_null() && old_mid.is_null() && new_mid.is_null()); return; }
        unsafe {
            let i = index(beg as *const u8);
            let n = BLOCKS.0[i].1;
            assert!(end as usize - beg as usize == n, "a vector is annotated up to its capacity");
            let (old, new) = (old_mid as usize - beg as usize, new_mid as usize - beg as usize);
            assert!(old <= n && new <= n);
            assert!(USABLE.0[i] == old || USABLE.0[i] == usize::MAX && old == n, "the annotation was as it is claimed to have been");
            USABLE.0[i] = new;
        }
    }
    pub(crate) fn add(p: *const u8, n: usize, a: usize) {
        unsafe {
            let mut i = 0;
            while i < MAX && BLOCKS.0[i].0 != 0 { i += 1; }
            assert!(i < MAX, "BOUND: the ledger is full");
            BLOCKS.0[i] = (p as usize, n, a); USABLE.0[i] = usize::MAX;
            LIVE.0 += 1; NEWS.0 += 1;
        }
    }
    pub(crate) fn remove(p: *const u8) -> (usize, usize) {
        unsafe {
            let mut i = 0;
            while i < MAX {
                if BLOCKS.0[i].0 == p as usize { let (_, n, a) = BLOCKS.0[i]; assert!(USABLE.0[i] == usize::MAX || USABLE.0[i] == n, "memory is not freed poisoned"); BLOCKS.0[i] = (0, 0, 0); LIVE.0 -= 1; return (n, a); }
                i += 1;
            }
        }
        panic!("only what operator new returned is deleted, and once");
    }
}

pub mod crubit_cc_std_internal {
    pub mod std_allocator {
        use crate::ledger;
        use core::alloc::Layout;
        use core::ffi::c_void;
        use core::ptr::NonNull;
        extern crate std as real;
        fn layout(n: usize, a: usize) -> Layout { Layout::from_size_align(if n == 0 { 1 } else { n }, a).unwrap() }
        /// operator new(n) or operator new(n, align).
        pub fn cpp_new(n: usize, align: usize) -> *mut c_void {
            if unsafe { ledger::EXHAUSTED.0 } { return core::ptr::null_mut(); }
            let p = unsafe { real::alloc::alloc(layout(n, align)) };
            ledger::add(p, n, align);
            p as *mut c_void
        }
        /// operator delete(p, n) or operator delete(p, n, align).
        pub unsafe fn cpp_delete(p: *mut c_void, n: usize, align: usize) {
            if p.is_null() { return; }
            let (m, a) = ledger::remove(p as *const u8);
            assert!(n == m, "a block is deleted with the size that it was allocated with");
            assert!(align == a, "a block is deleted with the alignment that it was allocated with");
            unsafe { real::alloc::dealloc(p as *mut u8, layout(n, align)) }
        }
        /// std::__shared_weak_count: owners and watchers (the owners together watch once).
        #[repr(C)]
        pub struct shared_weak_count { pub owners: usize, pub watchers: usize }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum FunctionToCall { kDestroyValue = 0, kDeleteControlBlock = 1 }
        #[repr(C)]
        pub struct DynControlBlock {
            pub base: shared_weak_count,
            pub deleter: Option<unsafe extern "C" fn(FunctionToCall, *mut DynControlBlock)>,
        }
        pub static mut CONTROL_BLOCKS: (usize, u64) = (0, 0x5EED000E);
        pub fn control_blocks() -> usize { unsafe { CONTROL_BLOCKS.0 } }
        impl DynControlBlock {
            pub unsafe fn Emplace(p: *mut DynControlBlock, deleter: Option<unsafe extern "C" fn(FunctionToCall, *mut DynControlBlock)>) -> *mut shared_weak_count {
                unsafe {
                    p.write(DynControlBlock { base: shared_weak_count { owners: 1, watchers: 1 }, deleter });
                    CONTROL_BLOCKS.0 += 1;
                }
                p as *mut shared_weak_count
            }
        }
        impl Drop for DynControlBlock {
            fn drop(&mut self) {
                assert!(self.base.owners == 0 && self.base.watchers == 0, "a control block is destroyed when it is no longer used");
                unsafe { CONTROL_BLOCKS.0 -= 1; }
            }
        }
        pub unsafe fn shared_ptr_ref(c: *mut shared_weak_count) { unsafe { if !c.is_null() { assert!((*c).owners > 0); (*c).owners += 1; } } }
        pub unsafe fn shared_ptr_unref(c: *mut shared_weak_count) {
            unsafe {
                if c.is_null() { return; }
                assert!((*c).owners > 0, "an owner leaves once");
                (*c).owners -= 1;
                if (*c).owners == 0 {
                    __crubit_invoke_dyn_control_block_deleter(FunctionToCall::kDestroyValue, NonNull::new_unchecked(c as *mut DynControlBlock));
                    weak_unref(c);
                }
            }
        }
        pub unsafe fn shared_ptr_use_count(c: *const shared_weak_count) -> usize { unsafe { if c.is_null() { 0 } else { (*c).owners } } }
        /// std::weak_ptr of C++.
        pub unsafe fn weak_ref(c: *mut shared_weak_count) { unsafe { (*c).watchers += 1; } }
        pub unsafe fn weak_unref(c: *mut shared_weak_count) {
            unsafe {
                (*c).watchers -= 1;
                if (*c).watchers == 0 {
                    __crubit_invoke_dyn_control_block_deleter(FunctionToCall::kDeleteControlBlock, NonNull::new_unchecked(c as *mut DynControlBlock));
                }
            }
        }
        #[path = "@REPO@/support/cc_std_impl/cpp_std_allocator.rs"]
        mod additional;
        pub use additional::*;
    }
    /// std::string: here, a size and a buffer that is there even if it is empty.
    pub mod conversion_function_helpers {
        use core::ffi::{c_char, c_void};
        extern crate std as real;
        use real::boxed::Box;
        #[repr(C)]
        pub struct CppString { pub n: usize, pub data: *mut u8, pub me: *const CppString }
        pub const CAP: usize = 5;
        pub static mut STRINGS: (isize, u64) = (0, 0x5EED000F);
        pub static mut COPIES: (usize, u64) = (0, 0x5EED0010);
        pub static mut MOVES: (usize, u64) = (0, 0x5EED0011);
        pub fn strings() -> isize { unsafe { STRINGS.0 } }
        pub fn copies() -> usize { unsafe { COPIES.0 } }
        pub fn moves() -> usize { unsafe { MOVES.0 } }
        unsafe fn buffer() -> *mut u8 { Box::into_raw(Box::new([0u8; CAP])) as *mut u8 }
        unsafe fn this<'a>(s: *const c_void) -> &'a mut CppString {
            let s = unsafe { &mut *(s as *mut CppString) };
            assert!(core::ptr::eq(s.me, s), "this is a live std::string");
            s
        }
        unsafe fn make(dst: *mut CppString, p: *const u8, n: usize) {
            assert!(n < CAP, "BOUND: the strings of the verifier are short");
            unsafe {
                let data = buffer();
                let mut i = 0;
                while i < n { *data.add(i) = *p.add(i); i += 1; }
                dst.write(CppString { n, data, me: dst });
                STRINGS.0 += 1;
            }
        }
        unsafe fn steal(dst: *mut CppString, src: &mut CppString) {
            unsafe { dst.write(CppString { n: src.n, data: src.data, me: dst }); src.n = 0; src.data = buffer(); STRINGS.0 += 1; MOVES.0 += 1; }
        }
        unsafe fn raw() -> *mut CppString { Box::into_raw(Box::<core::mem::MaybeUninit<CppString>>::new(core::mem::MaybeUninit::uninit())) as *mut CppString }
        unsafe fn end(s: *mut c_void) { unsafe { let t = this(s); t.me = core::ptr::null(); drop(Box::from_raw(t.data as *mut [u8; CAP])); STRINGS.0 -= 1; } }
        pub unsafe fn StringGetSize(s: *const c_void) -> usize { unsafe { this(s).n } }
        pub unsafe fn StringGetData(s: *const c_void) -> *const c_char { unsafe { this(s).data as *const c_char } }
        pub unsafe fn StringGetMutData(s: *mut c_void) -> *mut c_char { unsafe { this(s).data as *mut c_char } }
        pub unsafe fn StringCreateInPlace(dst: *mut c_void, src: *mut c_void) { unsafe { steal(dst as *mut CppString, this(src)) } }
        pub unsafe fn StringCreateFromBuffer(p: *const c_char, n: usize) -> *mut c_void { unsafe { let s = raw(); make(s, p as *const u8, n); s as *mut c_void } }
        pub unsafe fn StringMoveOwnedPtr(src: *mut c_void) -> *mut c_void { unsafe { let s = raw(); steal(s, this(src)); s as *mut c_void } }
        pub unsafe fn StringCopyOwnedPtr(src: *mut c_void) -> *mut c_void { unsafe { let s = raw(); let t = this(src); make(s, t.data, t.n); COPIES.0 += 1; s as *mut c_void } }
        pub unsafe fn StringEqual(a: *const c_void, b: *const c_void) -> bool {
            unsafe {
                let (a, b) = (this(a), this(b));
                if a.n != b.n { return false; }
                let mut i = 0;
                while i < a.n { if *a.data.add(i) != *b.data.add(i) { return false; } i += 1; }
                true
            }
        }
        pub unsafe fn StringDelete(s: *mut c_void) { unsafe { if s.is_null() { return; } end(s); drop(Box::from_raw(s as *mut core::mem::MaybeUninit<CppString>)); } }
        pub unsafe fn StringCreateDefaultInPlace(dst: *mut c_void) { unsafe { make(dst as *mut CppString, core::ptr::null(), 0) } }
        pub unsafe fn StringCreateFromBufferInPlace(dst: *mut c_void, p: *const c_char, n: usize) { unsafe { make(dst as *mut CppString, p as *const u8, n) } }
        pub unsafe fn StringCreateCopyInPlace(dst: *mut c_void, src: *const c_void) { unsafe { let t = this(src); make(dst as *mut CppString, t.data, t.n); COPIES.0 += 1; } }
        pub unsafe fn StringDestroyInPlace(s: *mut c_void) { unsafe { end(s) } }
    }
}

pub mod std {
    /// std::string_view of libc++.
    #[derive(Clone, Copy)]
    #[repr(C, align(8))]
    pub struct raw_string_view {
        pub(crate) __data_: [::core::mem::MaybeUninit<u8>; 8],
        pub(crate) __size_: [::core::mem::MaybeUninit<u8>; 8],
    }
    impl raw_string_view {
        pub fn cpp(p: *const u8, n: usize) -> Self { unsafe { ::core::mem::transmute((p, n)) } }
        pub fn parts(self) -> (*const u8, usize) { unsafe { ::core::mem::transmute(self) } }
        pub unsafe fn data(this: *const Self) -> *const ::core::ffi::c_char { unsafe { (*this).parts().0 as *const _ } }
        pub unsafe fn begin(this: *const Self) -> *const ::core::ffi::c_char { unsafe { (*this).parts().0 as *const _ } }
        pub unsafe fn end(this: *const Self) -> *const ::core::ffi::c_char { unsafe { let (p, n) = (*this).parts(); p.wrapping_add(n) as *const _ } }
    }
    #[path = "@REPO@/support/cc_std_impl/optional.rs"] mod optional_; pub use optional_::*;
    #[path = "@REPO@/support/cc_std_impl/shared_ptr.rs"] mod shared_ptr_; pub use shared_ptr_::*;
    #[path = "@REPO@/support/cc_std_impl/string.rs"] mod string_; pub use string_::*;
    #[path = "@REPO@/support/cc_std_impl/string_view.rs"] mod string_view_; pub use string_view_::*;
    #[path = "@REPO@/support/cc_std_impl/unique_ptr.rs"] mod unique_ptr_; pub use unique_ptr_::*;
    // std/vector_asan.rs is the same file, with its test for ASan replaced by the one for this feature.
    #[cfg_attr(not(feature = "asan"), path = "@REPO@/support/cc_std_impl/vector.rs")] #[cfg_attr(feature = "asan", path = "vector_asan.rs")] mod vector_; pub use vector_::*;
    #[path = "@REPO@/support/cc_std_impl/vector_partial_eq.rs"] mod vector_partial_eq_; pub use vector_partial_eq_::*;
}
#[path = "@REPO@/support/cc_std_impl/lossy_utf8.rs"] mod lossy_utf8_; pub use lossy_utf8_::*;
#[path = "@REPO@/support/cc_std_impl/slice_ptr.rs"] mod slice_ptr_; pub use slice_ptr_::*;
