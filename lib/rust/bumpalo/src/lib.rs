//! The contract of bumpalo's arena, for the verifier: every allocation is a
//! fresh place that lives as long as the arena and is never dropped; a place of
//! no bytes may be at the address of another one. One chunk, filled downwards.
#![no_std]
extern crate alloc;
use core::alloc::Layout;
use core::cell::Cell;

const SIZE: usize = 64;
pub struct Bump { base: *mut u8, top: Cell<usize> }
impl Default for Bump { fn default() -> Self { Self::new() } }
impl Bump {
    pub fn new() -> Self { Bump { base: unsafe { alloc::alloc::alloc(Layout::from_size_align(SIZE, 16).unwrap()) }, top: Cell::new(SIZE) } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    fn place<T>(&self, n: usize) -> *mut T {
        let bytes = n * size_of::<T>();
        assert!(align_of::<T>() <= 16 && bytes <= self.top.get(), "BOUND: the arena of the verifier is full");
        let at = (self.top.get() - bytes) & !(align_of::<T>() - 1);
        self.top.set(at);
        unsafe { self.base.add(at).cast() }
    }
    pub fn alloc<T>(&self, t: T) -> &mut T {
        let p = self.place::<T>(1);
        unsafe { p.write(t); &mut *p }
    }
    pub fn alloc_with<T>(&self, f: impl FnOnce() -> T) -> &mut T { self.alloc(f()) }
    pub fn alloc_slice_copy<T: Copy>(&self, s: &[T]) -> &mut [T] { self.alloc_slice_clone(s) }
    pub fn alloc_slice_clone<T: Clone>(&self, s: &[T]) -> &mut [T] {
        let n = s.len();
        let p = self.place::<T>(n);
        let mut i = 0;
        while i < n { unsafe { p.add(i).write(s[i].clone()); } i += 1; }
        unsafe { core::slice::from_raw_parts_mut(p, n) }
    }
    pub fn alloc_str(&self, s: &str) -> &mut str { unsafe { core::str::from_utf8_unchecked_mut(self.alloc_slice_copy(s.as_bytes())) } }
}
