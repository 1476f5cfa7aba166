// Types whose bindings are checked by C22.
#![allow(dead_code)]
use core::mem::{align_of, offset_of, size_of};
pub static mut LIVE: i32 = 0x56a1_0000;
pub static mut DROPS: u32 = 0x56a2_0000;
pub static mut CLONES: u32 = 0x56a3_0000;
pub static mut DEFAULTS: u32 = 0x56a4_0000;
pub static mut LAST: u32 = 0x56a5_0000;
pub fn live() -> i32 { unsafe { LIVE - 0x56a1_0000 } }
pub fn drops() -> u32 { unsafe { DROPS - 0x56a2_0000 } }
pub fn clones() -> u32 { unsafe { CLONES - 0x56a3_0000 } }
pub fn defaults() -> u32 { unsafe { DEFAULTS - 0x56a4_0000 } }
pub fn last() -> u32 { unsafe { LAST } }
fn born() { unsafe { LIVE += 1 } }
fn died(v: u32) { unsafe { LIVE -= 1; DROPS += 1; LAST = v } }
fn cloned() { unsafe { LIVE += 1; CLONES += 1 } }
fn defaulted() { unsafe { LIVE += 1; DEFAULTS += 1 } }
pub fn layout_size(which: u8) -> usize { match which { 0 => size_of::<Plain>(), 1 => size_of::<Mixed>(), 2 => size_of::<Tuple>(), 3 => size_of::<CRepr>(), 4 => size_of::<Packed>(), 5 => size_of::<Aligned>(), 6 => size_of::<Hidden>(), 7 => size_of::<Owner>(), 8 => size_of::<Nested>(), 9 => size_of::<Overlap>(), 10 => size_of::<Wide>(), 11 => size_of::<Refs<'static>>(), 12 => size_of::<NoMove>(), 13 => size_of::<Full>(), 14 => size_of::<Transparent>(), 15 => size_of::<WithZst>(), _ => 0 } }
pub fn layout_align(which: u8) -> usize { match which { 0 => align_of::<Plain>(), 1 => align_of::<Mixed>(), 2 => align_of::<Tuple>(), 3 => align_of::<CRepr>(), 4 => align_of::<Packed>(), 5 => align_of::<Aligned>(), 6 => align_of::<Hidden>(), 7 => align_of::<Owner>(), 8 => align_of::<Nested>(), 9 => align_of::<Overlap>(), 10 => align_of::<Wide>(), 11 => align_of::<Refs<'static>>(), 12 => align_of::<NoMove>(), 13 => align_of::<Full>(), 14 => align_of::<Transparent>(), 15 => align_of::<WithZst>(), _ => 0 } }

// Fields, in the order Rust chooses.
#[derive(Clone, Copy)] pub struct Plain { pub a: u8, pub b: u32 }
pub fn plain(a: u8, b: u32) -> Plain { Plain { a, b } }
pub fn plain_a(x: &Plain) -> u8 { x.a }
pub fn plain_b(x: &Plain) -> u32 { x.b }
#[derive(Clone, Copy)] pub struct Mixed { pub a: u8, pub b: u64, pub c: u16, pub d: bool, pub e: f32, pub f: [u16; 3], pub g: i64, pub h: *const u8, pub i: char }
pub fn mixed(a: u8, b: u64, c: u16, d: bool, e: f32, f: [u16; 3], g: i64, h: *const u8, i: char) -> Mixed { Mixed { a, b, c, d, e, f, g, h, i } }
pub fn mixed_sum(x: &Mixed) -> u64 { x.a as u64 ^ x.b.rotate_left(1) ^ (x.c as u64).rotate_left(2) ^ (x.d as u64).rotate_left(3) ^ (x.e.to_bits() as u64).rotate_left(4) ^ (x.f[0] as u64).rotate_left(5) ^ (x.f[2] as u64).rotate_left(6) ^ (x.g as u64).rotate_left(7) ^ (x.h as usize as u64).rotate_left(8) ^ (x.i as u64).rotate_left(9) }
#[derive(Clone, Copy)] pub struct Tuple(pub u8, pub u64, u16, pub u32);
pub fn tuple(a: u8, b: u64, c: u16, d: u32) -> Tuple { Tuple(a, b, c, d) }
pub fn tuple_2(x: &Tuple) -> u16 { x.2 }
#[repr(C)] #[derive(Clone, Copy)] pub struct CRepr { pub a: u8, pub b: u32, pub c: u8, pub d: u64, pub e: u16 }
pub fn c_repr(a: u8, b: u32, c: u8, d: u64, e: u16) -> CRepr { CRepr { a, b, c, d, e } }
#[repr(C, packed)] #[derive(Clone, Copy)] pub struct Packed { pub a: u8, pub b: u32, pub c: u16 }
pub fn packed(a: u8, b: u32, c: u16) -> Packed { Packed { a, b, c } }
#[repr(C, align(16))] #[derive(Clone, Copy)] pub struct Aligned { pub a: u8, pub b: u32 }
pub fn aligned(a: u8, b: u32) -> Aligned { Aligned { a, b } }
#[derive(Clone, Copy)] pub struct Wide { pub before: u8, pub inner: Aligned, pub after: u16 }
pub fn wide(before: u8, a: u8, b: u32, after: u16) -> Wide { Wide { before, inner: Aligned { a, b }, after } }
#[repr(transparent)] #[derive(Clone, Copy)] pub struct Transparent(pub u32);
pub fn transparent(x: Transparent) -> Transparent { Transparent(!x.0) }
#[derive(Clone, Copy)] pub struct WithZst { pub a: u8, pub z: (), pub p: core::marker::PhantomData<u64>, pub b: u32 }
pub fn with_zst(a: u8, b: u32) -> WithZst { WithZst { a, z: (), p: core::marker::PhantomData, b } }
// Private fields and fields C++ cannot name.
#[derive(Clone, Copy)] struct Secret { s: u16, t: u8 }
#[derive(Clone, Copy)] pub struct Hidden { a: u32, pub b: u8, c: u16, pub d: Secret2, pub e: u64 }
#[derive(Clone, Copy)] pub struct Secret2 { s: u16, t: u8 }
impl Hidden {
    pub fn new(a: u32, b: u8, c: u16, s: u16, t: u8, e: u64) -> Hidden { Hidden { a, b, c, d: Secret2 { s, t }, e } }
    pub fn a(&self) -> u32 { self.a }
    pub fn c(&self) -> u16 { self.c }
    pub fn set_b(&mut self, b: u8) { self.b = b }
    pub fn secret(&self) -> u32 { self.d.s as u32 ^ (self.d.t as u32) << 16 }
}
// A field and a method of the same name; names that C++ reserves.
pub struct Names { pub class: u8, pub int: u16, pub value: u32 }
impl Names { pub fn new(class: u8, int: u16, value: u32) -> Names { Names { class, int, value } } pub fn value(&self) -> u32 { !self.value } pub fn template(&self) -> u8 { self.class } }
// References.
pub struct Refs<'a> { pub r: &'a u32, pub o: Option<&'a u32>, pub s: &'a [u16] }
impl<'a> Refs<'a> { pub fn new(r: &'a u32, s: &'a [u16]) -> Refs<'a> { Refs { r, o: Some(r), s } } pub fn get(&self) -> &'a u32 { self.r } pub fn len(&self) -> usize { self.s.len() } }

// Special members.
pub struct Owner { pub v: u32 }   // Drop and Default: destroyed and movable
impl Drop for Owner { fn drop(&mut self) { died(self.v) } }
impl Default for Owner { fn default() -> Owner { defaulted(); Owner { v: 0xd0 } } }
impl Owner { pub fn new(v: u32) -> Owner { born(); Owner { v } } pub fn v(&self) -> u32 { self.v } }
pub struct Full { pub v: u32 }   // Drop, Default and Clone: copied too
impl Drop for Full { fn drop(&mut self) { died(self.v) } }
impl Default for Full { fn default() -> Full { defaulted(); Full { v: 0xf0 } } }
impl Clone for Full { fn clone(&self) -> Full { cloned(); Full { v: self.v } } fn clone_from(&mut self, o: &Full) { unsafe { CLONES += 0x100 } self.v = o.v } }
impl Full { pub fn new(v: u32) -> Full { born(); Full { v } } }
pub struct NoMove { pub v: u32 }   // Drop alone: neither copied nor moved
impl Drop for NoMove { fn drop(&mut self) { died(self.v) } }
impl NoMove { pub fn new(v: u32) -> NoMove { born(); NoMove { v } } pub fn v(&self) -> u32 { self.v } pub fn eat(self) -> u32 { self.v } }
pub struct Nested { pub a: Owner, pub k: u8, pub b: Owner }   // drop glue, but no Drop
impl Nested { pub fn new(a: u32, k: u8, b: u32) -> Nested { Nested { a: Owner::new(a), k, b: Owner::new(b) } } }
impl Default for Nested { fn default() -> Nested { Nested { a: Owner::default(), k: 9, b: Owner::default() } } }
#[derive(Clone)] pub struct OnlyClone { pub v: u32 }   // no Drop: bitwise moves, clones copied
impl OnlyClone { pub fn new(v: u32) -> OnlyClone { OnlyClone { v } } }
pub struct OwnClone { pub v: u32 }
impl Clone for OwnClone { fn clone(&self) -> OwnClone { unsafe { CLONES += 1 } OwnClone { v: self.v } } }
impl OwnClone { pub fn new(v: u32) -> OwnClone { OwnClone { v } } }
pub struct Neither { pub v: u32 }   // no Copy, no Clone, no Drop, no Default
impl Neither { pub fn new(v: u32) -> Neither { Neither { v } } pub fn eat(self) -> u32 { self.v } }
#[derive(Default)] pub struct Derived { pub a: u8, pub b: u32, pub c: bool }
#[repr(C)] pub struct Zeroed { pub a: u64 }
impl Default for Zeroed { fn default() -> Zeroed { unsafe { DEFAULTS += 1 } Zeroed { a: 77 } } }

// Unions.
#[repr(C)] #[derive(Clone, Copy)] pub union Overlap { pub a: u32, pub b: [u8; 4], pub c: u64 }
pub fn overlap(c: u64) -> Overlap { Overlap { c } }
pub fn overlap_c(x: &Overlap) -> u64 { unsafe { x.c } }
pub fn overlap_b(x: Overlap, i: u8) -> u8 { unsafe { x.b[i as usize & 3] } }
#[derive(Clone, Copy)] pub union RustUnion { pub a: u16, pub b: u32 }
pub fn rust_union(b: u32) -> RustUnion { RustUnion { b } }
pub fn rust_union_b(x: &RustUnion) -> u32 { unsafe { x.b } }

// By-value passing of them all.
pub fn eat_nested(x: Nested) -> u32 { x.a.v ^ x.b.v.rotate_left(1) ^ x.k as u32 }
pub fn eat_full(x: Full) -> u32 { x.v }
pub fn sum_hidden(x: Hidden) -> u64 { x.a as u64 ^ x.b as u64 ^ x.c as u64 ^ x.d.s as u64 ^ x.d.t as u64 ^ x.e }
pub fn offsets(which: u8) -> usize { match which { 0 => offset_of!(Hidden, b), 1 => offset_of!(Hidden, d), 2 => offset_of!(Hidden, e), 3 => offset_of!(Tuple, 0), 4 => offset_of!(Tuple, 1), 5 => offset_of!(Tuple, 3), 6 => offset_of!(Wide, before), 7 => offset_of!(Wide, inner), 8 => offset_of!(Wide, after), 9 => offset_of!(Nested, a), 10 => offset_of!(Nested, k), 11 => offset_of!(Nested, b), _ => 0 } }
