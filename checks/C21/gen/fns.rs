//! A crate with functions of every kind that bindings are generated for.
#![allow(static_mut_refs)]
static mut CALLS: u32 = 0;
static mut LAST: u32 = 0;
static mut LIVE: i32 = 0;
static mut DROPPED: u32 = 0;
fn called(id: u32) { unsafe { CALLS += 1; LAST = id; } }
/// How many of the functions below have run, and which one ran last.
pub fn calls() -> u32 { unsafe { CALLS } }
pub fn last() -> u32 { unsafe { LAST } }
/// How many objects are alive, and the values of those that were dropped.
pub fn live() -> i32 { unsafe { LIVE } }
pub fn dropped() -> u32 { unsafe { DROPPED } }

// Scalars.
pub fn i8s(a: i8, b: i8) -> i8 { called(1); a.wrapping_sub(b) }
pub fn i16s(a: i16, b: i16) -> i16 { called(2); a.wrapping_sub(b) }
pub fn i32s(a: i32, b: i32) -> i32 { called(3); a.wrapping_sub(b) }
pub fn i64s(a: i64, b: i64) -> i64 { called(4); a.wrapping_sub(b) }
pub fn u8s(a: u8, b: u8) -> u8 { called(5); a.wrapping_sub(b) }
pub fn u16s(a: u16, b: u16) -> u16 { called(6); a.wrapping_sub(b) }
pub fn u32s(a: u32, b: u32) -> u32 { called(7); a.wrapping_sub(b) }
pub fn u64s(a: u64, b: u64) -> u64 { called(8); a.wrapping_sub(b) }
pub fn isizes(a: isize, b: isize) -> isize { called(9); a.wrapping_sub(b) }
pub fn usizes(a: usize, b: usize) -> usize { called(10); a.wrapping_sub(b) }
pub fn bools(a: bool, b: bool) -> bool { called(11); a && !b }
pub fn chars(a: char, b: char) -> char { called(12); if a < b { a } else { b } }
pub fn second_f32(_a: f32, b: f32) -> f32 { called(13); b }
pub fn second_f64(_a: f64, b: f64) -> f64 { called(14); b }
pub fn c_types(a: core::ffi::c_int, b: core::ffi::c_uchar, c: core::ffi::c_long) -> core::ffi::c_long { called(15); (a as core::ffi::c_long).wrapping_sub(c) ^ b as core::ffi::c_long }
pub fn mixed(a: u8, b: u64, c: i16, d: bool, e: f32, f: u32, g: i64, h: u16, i: i8) -> u64 {
    called(16);
    a as u64 ^ b.rotate_left(1) ^ (c as u64).rotate_left(2) ^ (d as u64).rotate_left(3) ^ (e.to_bits() as u64).rotate_left(5) ^ (f as u64).rotate_left(9) ^ (g as u64).rotate_left(13) ^ (h as u64).rotate_left(17) ^ (i as u64).rotate_left(21)
}
pub fn nothing() { called(17) }
pub extern "C" fn c_abi(a: u8, b: u64) -> u64 { called(18); b ^ a as u64 }
#[unsafe(no_mangle)] pub extern "C" fn vp_fns_exported(a: u16, b: u8) -> u32 { called(19); (a as u32) << 8 | b as u32 }
#[unsafe(no_mangle)] pub fn vp_fns_no_mangle(a: u16, b: u8) -> u32 { called(20); (a as u32) << 8 | b as u32 }
pub unsafe fn unsafe_read(p: *const u32) -> u32 { called(21); unsafe { *p } }

// References, pointers, slices.
pub fn set(x: &mut u32, y: u32) { called(30); *x = y }
pub fn get(x: &u32) -> u32 { called(31); *x }
pub fn same<'a>(x: &'a u32) -> &'a u32 { called(32); x }
pub fn same_mut<'a>(x: &'a mut u32) -> &'a mut u32 { called(33); x }
pub fn second_ptr(_x: *const u8, y: *mut u64) -> *mut u64 { called(34); y }
pub fn const_ptr(x: *const u64) -> *const u64 { called(35); x }
pub fn first(x: &[u16]) -> u16 { called(36); x[0] }
pub fn set_last(x: &mut [u16], v: u16) { called(37); let n = x.len(); x[n - 1] = v }
pub fn len(x: &[u64]) -> usize { called(38); x.len() }
pub fn same_slice<'a>(x: &'a [u16]) -> &'a [u16] { called(39); x }
pub fn same_str<'a>(x: &'a str) -> &'a str { called(40); x }
pub fn copy(to: &mut u32, from: &u32) { called(41); *to = *from }
pub fn twice(a: &mut u32, b: &mut u32) { called(42); *a = 1; *b = 2 }
pub fn readers(a: &u32, b: &u32) -> u32 { called(43); *a ^ *b }
pub fn call(f: extern "C" fn(u32, u8) -> u32, x: u32, y: u8) -> u32 { called(44); f(x, y) }

// Values.
#[derive(Clone, Copy)] pub struct Pod { pub a: u8, pub b: u64, pub c: u16 }
impl Pod {
    pub fn new(a: u8, b: u64, c: u16) -> Pod { called(50); Pod { a, b, c } }
    pub fn sum(&self) -> u64 { called(51); self.a as u64 ^ self.b ^ self.c as u64 }
    pub fn set(&mut self, b: u64) { called(52); self.b = b }
    pub fn take(self, x: u64) -> u64 { called(53); self.b ^ x }
    pub fn with(mut self, c: u16) -> Pod { called(54); self.c = c; self }
    pub fn b_mut(&mut self) -> &mut u64 { called(55); &mut self.b }
    pub fn fixed() -> u8 { called(56); 56 }
}
pub fn pod(a: u8, x: Pod, y: Pod, c: u16) -> Pod { called(57); Pod { a: a ^ x.a, b: y.b, c: c ^ x.c } }
pub struct D { pub v: u32 }
impl D { fn made(v: u32) -> D { unsafe { LIVE += 1 }; D { v } } }
impl Drop for D { fn drop(&mut self) { unsafe { LIVE -= 1; DROPPED = DROPPED.rotate_left(7) ^ self.v; } } }
impl Default for D { fn default() -> D { D::made(0) } }
impl D {
    pub fn make(v: u32) -> D { called(60); D::made(v) }
    pub fn value(&self) -> u32 { called(61); self.v }
    pub fn change(&mut self, v: u32) -> u32 { called(62); core::mem::replace(&mut self.v, v) }
    pub fn into_value(self) -> u32 { called(63); self.v }
    pub fn renew(self, v: u32) -> D { called(64); D::made(self.v ^ v) }
    pub fn swap(&mut self, o: &mut D) { called(65); core::mem::swap(&mut self.v, &mut o.v) }
    pub fn pick<'a>(&'a self, o: &'a D, which: bool) -> &'a D { called(66); if which { o } else { self } }
}
pub fn eat(d: D) -> u32 { called(67); d.v }
pub fn eat_between(a: u32, d: D, b: u8) -> u32 { called(68); d.v ^ a ^ b as u32 }
pub fn eat_two(a: D, b: &D, c: D) -> u32 { called(69); a.v.rotate_left(1) ^ b.v.rotate_left(2) ^ c.v }
pub fn pass(d: D) -> D { called(70); d }
pub fn swap_out(d: &mut D, with: D) -> D { called(71); core::mem::replace(d, with) }

// Tuples and arrays.
pub fn pair(x: (u8, u32)) -> (u32, u8) { called(80); (x.1, x.0) }
pub fn triple(x: u16) -> (u8, u16, u64) { called(81); (1, x, 3) }
pub fn unpack(x: (u32, D), y: u32) -> u32 { called(82); x.0 ^ x.1.v ^ y.rotate_left(1) }
pub fn pack(v: u32) -> (D, u32) { called(83); (D::made(v), !v) }
pub fn array(x: [u16; 3]) -> [u16; 3] { called(84); [x[2], x[0], x[1]] }

// Options and results.
pub fn opt(x: Option<u32>) -> Option<u32> { called(90); match x { Some(v) => if v == 7 { None } else { Some(!v) }, None => Some(7) } }
pub fn opt_u8(x: Option<u8>, y: u8) -> u8 { called(91); x.unwrap_or(y) }
pub fn opt_d(some: bool, v: u32) -> Option<D> { called(92); if some { Some(D::made(v)) } else { None } }
pub fn eat_opt_d(x: Option<D>) -> u32 { called(93); match x { Some(d) => d.v, None => 5 } }
pub fn opt_ref<'a>(x: &'a u32, some: bool) -> Option<&'a u32> { called(94); if some { Some(x) } else { None } }
pub fn res(ok: bool, x: u32) -> Result<u32, u8> { called(95); if ok { Ok(x) } else { Err(x as u8) } }

// Modules, names, aliases.
pub mod m {
    pub fn inner(x: u8) -> u8 { super::called(100); x ^ 1 }
    pub mod deep { pub fn inner(x: u8) -> u8 { super::super::called(101); x ^ 2 } pub struct S { pub v: u8 } impl S { pub fn inner(&self) -> u8 { super::super::called(102); self.v ^ 3 } } pub fn s(v: u8) -> S { S { v } } }
}
pub use m::inner as outer;
pub fn delete(int: u8, class: u8) -> u8 { called(103); int ^ class.rotate_left(1) }
pub fn reinterpret_cast(x: u8) -> u8 { called(104); x ^ 4 }
