//! Traits, operators, conversions, constants, iterators and names whose bindings are checked by C24.
#![allow(dead_code)]
use core::cmp::Ordering;
use core::ops::*;
static mut LIVE: i32 = 0x57a1_0000;
static mut LAST: u32 = 0x57a3_0000;
pub fn live() -> i32 { unsafe { LIVE } }
pub fn last() -> u32 { unsafe { LAST } }
fn called(id: u32) { unsafe { LAST = id } }

// Constants.
pub const K_I8: i8 = -128;
pub const K_I16: i16 = -30000;
pub const K_I32: i32 = i32::MIN;
pub const K_I64: i64 = i64::MIN;
pub const K_U8: u8 = 255;
pub const K_U16: u16 = 65535;
pub const K_U32: u32 = 0xffff_ffff;
pub const K_U64: u64 = 0xffff_ffff_ffff_fffe;
pub const K_ISIZE: isize = -7;
pub const K_USIZE: usize = usize::MAX;
pub const K_TRUE: bool = true;
pub const K_FALSE: bool = false;
pub const K_F32: f32 = 1.5;
pub const K_F64: f64 = -2.25;
pub const K_CHAR: char = '\u{10ffff}';
pub const K_SUM: u32 = K_U16 as u32 + 1;
pub mod consts { pub const INNER: u8 = 42; pub const delete: u8 = 43; }

// Operators on plain values.
#[derive(Clone, Copy)] pub struct N { pub v: u32 }
impl N { pub const ZERO: u32 = 0; pub const LIMIT: u32 = 0x8000_0001; pub fn new(v: u32) -> N { N { v } } }
impl Add for N { type Output = N; fn add(self, o: N) -> N { N { v: self.v.wrapping_add(o.v) } } }
impl Sub for N { type Output = N; fn sub(self, o: N) -> N { N { v: self.v.wrapping_sub(o.v) } } }
impl Mul<u32> for N { type Output = u64; fn mul(self, o: u32) -> u64 { self.v as u64 ^ (o as u64) << 32 } }
impl Div for N { type Output = N; fn div(self, o: N) -> N { N { v: self.v.rotate_left(1) ^ o.v } } }
impl Rem for N { type Output = N; fn rem(self, o: N) -> N { N { v: self.v.rotate_left(2) ^ o.v } } }
impl BitAnd for N { type Output = N; fn bitand(self, o: N) -> N { N { v: self.v & !o.v } } }
impl BitOr for N { type Output = N; fn bitor(self, o: N) -> N { N { v: self.v | !o.v } } }
impl BitXor for N { type Output = N; fn bitxor(self, o: N) -> N { N { v: self.v.rotate_left(3) ^ o.v } } }
impl Shl<u8> for N { type Output = N; fn shl(self, o: u8) -> N { N { v: self.v.wrapping_shl(o as u32) } } }
impl Shr<u8> for N { type Output = N; fn shr(self, o: u8) -> N { N { v: self.v.wrapping_shr(o as u32) } } }
impl Neg for N { type Output = N; fn neg(self) -> N { N { v: self.v.wrapping_neg() } } }
impl Not for N { type Output = u64; fn not(self) -> u64 { !(self.v as u64) } }
impl AddAssign for N { fn add_assign(&mut self, o: N) { called(1); self.v = self.v.wrapping_add(o.v) } }
impl SubAssign<u32> for N { fn sub_assign(&mut self, o: u32) { called(2); self.v = self.v.wrapping_sub(o) } }
impl MulAssign<u32> for N { fn mul_assign(&mut self, o: u32) { called(3); self.v = self.v.rotate_left(3) ^ o } }
impl DivAssign<u32> for N { fn div_assign(&mut self, o: u32) { called(4); self.v = self.v.rotate_left(4) ^ o } }
impl RemAssign<u32> for N { fn rem_assign(&mut self, o: u32) { called(5); self.v = self.v.rotate_left(5) ^ o } }
impl BitAndAssign<u32> for N { fn bitand_assign(&mut self, o: u32) { called(6); self.v &= o } }
impl BitOrAssign<u32> for N { fn bitor_assign(&mut self, o: u32) { called(7); self.v |= o } }
impl BitXorAssign<u32> for N { fn bitxor_assign(&mut self, o: u32) { called(8); self.v ^= o } }
impl ShlAssign<u8> for N { fn shl_assign(&mut self, o: u8) { called(9); self.v = self.v.wrapping_shl(o as u32) } }
impl ShrAssign<u8> for N { fn shr_assign(&mut self, o: u8) { called(10); self.v = self.v.wrapping_shr(o as u32) } }
impl PartialEq for N { fn eq(&self, o: &N) -> bool { self.v & 0xff == o.v & 0xff } }
impl PartialEq<u32> for N { fn eq(&self, o: &u32) -> bool { self.v == *o } }
impl PartialOrd for N { fn partial_cmp(&self, o: &N) -> Option<Ordering> { if self.v & 0xff == 0xff || o.v & 0xff == 0xff { if self == o { Some(Ordering::Equal) } else { None } } else { (self.v & 0xff).partial_cmp(&(o.v & 0xff)) } } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct Total { pub a: i8, pub b: u8 }
pub fn total(a: i8, b: u8) -> Total { Total { a, b } }
#[derive(Clone, Copy, PartialEq, PartialOrd)] pub struct Fl { pub f: f32 }

// Operators on objects with a destructor.
pub struct D { pub v: u32 }
impl D { pub fn new(v: u32) -> D { unsafe { LIVE += 1 } D { v } } pub fn v(&self) -> u32 { self.v } }
impl Drop for D { fn drop(&mut self) { unsafe { LIVE -= 1 } } }
impl Default for D { fn default() -> D { D::new(0xd0) } }
impl Clone for D { fn clone(&self) -> D { D::new(self.v) } }
impl Add for D { type Output = D; fn add(self, o: D) -> D { D::new(self.v.rotate_left(1) ^ o.v) } }
impl Neg for D { type Output = u32; fn neg(self) -> u32 { !self.v } }
impl AddAssign<D> for D { fn add_assign(&mut self, o: D) { self.v = self.v.rotate_left(1) ^ o.v } }
impl Sub<&D> for &D { type Output = u32; fn sub(self, o: &D) -> u32 { self.v.wrapping_sub(o.v) } }
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.v == o.v } }
impl From<u32> for D { fn from(v: u32) -> D { D::new(v ^ 0x5555) } }
impl From<N> for D { fn from(n: N) -> D { D::new(n.v) } }
impl From<D> for u32 { fn from(d: D) -> u32 { d.v ^ 0xaaaa } }
impl From<&D> for u64 { fn from(d: &D) -> u64 { d.v as u64 + (1 << 40) } }
impl From<D> for N { fn from(d: D) -> N { N { v: d.v } } }
impl Index<usize> for D { type Output = u32; fn index(&self, i: usize) -> &u32 { called(20 + i as u32); &self.v } }
impl IndexMut<usize> for D { fn index_mut(&mut self, i: usize) -> &mut u32 { called(40 + i as u32); &mut self.v } }
impl Deref for D { type Target = u32; fn deref(&self) -> &u32 { called(60); &self.v } }

// Iterators and traits.
pub struct Down(pub u8);
impl Iterator for Down { type Item = u8; fn next(&mut self) -> Option<u8> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } } }
pub struct Objects { n: u8 }
impl Objects { pub fn new(n: u8) -> Objects { Objects { n } } }
impl Iterator for Objects { type Item = D; fn next(&mut self) -> Option<D> { if self.n == 0 { None } else { self.n -= 1; Some(D::new(self.n as u32)) } } }
pub trait Shape { const SIDES: u32; fn area(&self, x: u32) -> u32; fn grow(&mut self, by: u32); fn unit() -> u32; fn consume(self, x: u32) -> u32 where Self: Sized; fn given(&self) -> u32 { self.area(3) ^ 1 } }
#[derive(Default)] pub struct Sq { pub s: u32 }
#[derive(Default)] pub struct Tri { pub t: u64, pub u: u32 }
impl Shape for Sq { const SIDES: u32 = 4; fn area(&self, x: u32) -> u32 { self.s ^ x } fn grow(&mut self, by: u32) { self.s = self.s.wrapping_add(by) } fn unit() -> u32 { 1 } fn consume(self, x: u32) -> u32 { self.s ^ x.rotate_left(1) } }
impl Shape for Tri { const SIDES: u32 = 3; fn area(&self, x: u32) -> u32 { self.u.rotate_left(1) ^ x } fn grow(&mut self, by: u32) { self.u = self.u.wrapping_sub(by) } fn unit() -> u32 { 2 } fn consume(self, x: u32) -> u32 { self.u ^ x.rotate_left(2) } fn given(&self) -> u32 { 9 } }

// Names.
pub type Alias = D;
pub mod outer { pub mod inner { pub struct T { pub v: u8 } impl T { pub fn get(&self) -> u8 { self.v ^ 1 } } pub fn f(v: u8) -> T { T { v } } } pub use inner::T as Renamed; pub use inner::f as g; }
pub use outer::inner::f as h;
pub fn class(namespace: u8, operator: u8) -> u8 { namespace ^ operator.rotate_left(1) }
pub struct Borrow<'a> { pub r: &'a u32 }
impl<'a> Borrow<'a> { pub fn new(r: &'a u32) -> Borrow<'a> { Borrow { r } } pub fn get(&self) -> &'a u32 { self.r } pub fn value(&self) -> u32 { *self.r } }
