// Enums, options, results and tuples whose bindings are checked by C23.
#![allow(dead_code)]
use core::mem::{align_of, size_of};
pub static mut LIVE: i32 = 0x57a1_0000;
pub static mut DROPS: u32 = 0x57a2_0000;
pub static mut LAST: u32 = 0x57a3_0000;
pub fn live() -> i32 { unsafe { LIVE - 0x57a1_0000 } }
pub fn drops() -> u32 { unsafe { DROPS - 0x57a2_0000 } }
pub fn last() -> u32 { unsafe { LAST } }
pub struct D { pub v: u32 }
impl D { pub fn new(v: u32) -> D { unsafe { LIVE += 1 } D { v } } pub fn v(&self) -> u32 { self.v } }
impl Drop for D { fn drop(&mut self) { unsafe { LIVE -= 1; DROPS += 1; LAST = self.v } } }
impl Default for D { fn default() -> D { D::new(0xd0) } }
impl Clone for D { fn clone(&self) -> D { D::new(self.v) } }
pub struct M { pub v: u32 }   // neither Clone nor Default: not movable in C++
impl M { pub fn new(v: u32) -> M { unsafe { LIVE += 1 } M { v } } pub fn v(&self) -> u32 { self.v } }
impl Drop for M { fn drop(&mut self) { unsafe { LIVE -= 1; DROPS += 1; LAST = self.v } } }

#[repr(u8)] #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum U8 { A = 3, B = 200, C }
#[repr(i16)] #[derive(Clone, Copy, PartialEq, Eq)] pub enum I16 { Low = -5, Zero = 0, High = 300 }
#[repr(u64)] #[derive(Clone, Copy, PartialEq, Eq)] pub enum U64 { Big = 0xffff_ffff_0000_0001, Small = 1 }
#[derive(Clone, Copy, PartialEq, Eq)] pub enum Plain { A, B, C }
pub fn u8_of(x: U8) -> u8 { x as u8 }
pub fn to_u8(x: u8) -> U8 { match x { 0 => U8::A, 1 => U8::B, _ => U8::C } }
pub fn i16_of(x: I16) -> i16 { x as i16 }
pub fn to_i16(x: u8) -> I16 { match x { 0 => I16::Low, 1 => I16::Zero, _ => I16::High } }
pub fn u64_of(x: U64) -> u64 { x as u64 }
pub fn to_u64(x: bool) -> U64 { if x { U64::Big } else { U64::Small } }
pub fn plain_of(x: Plain) -> u8 { match x { Plain::A => 0, Plain::B => 1, Plain::C => 2 } }
pub fn to_plain(x: u8) -> Plain { match x { 0 => Plain::A, 1 => Plain::B, _ => Plain::C } }
impl Plain { pub fn next(self) -> Plain { match self { Plain::A => Plain::B, Plain::B => Plain::C, Plain::C => Plain::A } } pub fn is_a(&self) -> bool { matches!(self, Plain::A) } }

// Enums with payloads.
pub enum Pay { A(u32, D), B { x: u8 }, C }
pub fn pay(which: u8, v: u32, x: u8) -> Pay { match which { 0 => Pay::A(v, D::new(!v)), 1 => Pay::B { x }, _ => Pay::C } }
pub fn pay_sum(p: &Pay) -> u32 { match p { Pay::A(a, d) => *a ^ d.v.rotate_left(1), Pay::B { x } => *x as u32, Pay::C => 7 } }
#[derive(Clone, Copy)] #[repr(C)] pub enum RC { A(u32), B { x: u8, y: u64 }, C }
pub fn rc(which: u8, a: u32, x: u8, y: u64) -> RC { match which { 0 => RC::A(a), 1 => RC::B { x, y }, _ => RC::C } }
pub fn rc_sum(r: &RC) -> u64 { match r { RC::A(a) => *a as u64, RC::B { x, y } => *x as u64 ^ y.rotate_left(3), RC::C => 9 } }
#[derive(Clone, Copy)] #[repr(C, u8)] pub enum RU { A(u16), B(u64, u8) }
pub fn ru(which: bool, a: u16, b: u64, c: u8) -> RU { if which { RU::A(a) } else { RU::B(b, c) } }
pub fn ru_sum(r: &RU) -> u64 { match r { RU::A(a) => *a as u64, RU::B(b, c) => *b ^ *c as u64 } }

// Options, results and tuples as fields, references and values.
pub struct Holds { pub o: Option<u32>, pub p: Option<&'static u32>, pub r: Result<u32, u8>, pub d: Option<D>, pub q: Option<u8>, pub t: (u8, u32) }
impl Holds { pub fn new(some: bool, v: u32) -> Holds { Holds { o: if some { Some(v) } else { None }, p: None, r: if some { Ok(v) } else { Err(v as u8) }, d: if some { Some(D::new(v)) } else { None }, q: if some { Some(v as u8) } else { None }, t: (v as u8, v) } }
    pub fn o(&self) -> u32 { self.o.unwrap_or(1) } pub fn r(&self) -> u32 { match self.r { Ok(v) => v, Err(e) => e as u32 ^ 0x100 } } pub fn d(&self) -> u32 { self.d.as_ref().map_or(2, |d| d.v) } pub fn q(&self) -> u32 { self.q.map_or(0x300, |q| q as u32) } }
pub fn sizes(which: u8) -> usize { match which { 0 => size_of::<Holds>(), 1 => size_of::<Option<u32>>(), 2 => size_of::<Result<u32, u8>>(), 3 => size_of::<Option<D>>(), 4 => size_of::<Pay>(), 5 => size_of::<RC>(), 6 => size_of::<RU>(), 7 => size_of::<U8>(), 8 => size_of::<I16>(), 9 => size_of::<U64>(), 10 => size_of::<Plain>(), 11 => size_of::<Option<bool>>(), _ => 0 } }
pub fn aligns(which: u8) -> usize { match which { 0 => align_of::<Holds>(), 4 => align_of::<Pay>(), 5 => align_of::<RC>(), 6 => align_of::<RU>(), 7 => align_of::<U8>(), 8 => align_of::<I16>(), 9 => align_of::<U64>(), 10 => align_of::<Plain>(), _ => 0 } }
pub fn res_u(ok: bool, v: u32) -> Result<u32, u8> { if ok { Ok(v) } else { Err(v as u8) } }
pub fn res_d(ok: bool, v: u32) -> Result<D, u8> { if ok { Ok(D::new(v)) } else { Err(v as u8) } }
pub fn res_e(ok: bool, v: u32) -> Result<u8, D> { if ok { Ok(v as u8) } else { Err(D::new(v)) } }
pub fn res_unit(ok: bool, v: u32) -> Result<(), u32> { if ok { Ok(()) } else { Err(v) } }
pub fn res_ref(r: &mut Result<u32, u8>) -> u32 { match r { Ok(v) => { let o = *v; *r = Err(o as u8); o } Err(e) => { let o = *e; *r = Ok(o as u32 + 5); o as u32 } } }
pub fn res_by(r: Result<u32, u8>) -> u32 { match r { Ok(v) => v, Err(e) => e as u32 ^ 0x100 } }
pub fn res_d_by(r: Result<D, u8>) -> u32 { match r { Ok(d) => d.v, Err(e) => e as u32 } }
pub fn opt_niche(x: u8) -> Option<bool> { match x { 0 => Some(false), 1 => Some(true), _ => None } }
pub fn opt_niche_by(x: Option<bool>) -> u8 { match x { Some(false) => 0, Some(true) => 1, None => 2 } }
pub fn opt_char(x: u32) -> Option<char> { char::from_u32(x) }
pub fn opt_plain(x: u8) -> Option<U8> { match x { 0 => Some(U8::A), 1 => Some(U8::B), 2 => Some(U8::C), _ => None } }
pub fn opt_ref(x: &u32, some: bool) -> Option<&u32> { if some { Some(x) } else { None } }
pub fn opt_ref_by(x: Option<&u32>) -> u32 { x.map_or(3, |v| *v) }
pub fn opt_mut(x: &mut Option<u32>, v: u32) -> u32 { let o = x.unwrap_or(4); *x = match x { Some(_) => None, None => Some(v) }; o }
pub fn opt_d_mut(x: &mut Option<D>, v: u32) { *x = match x { Some(_) => None, None => Some(D::new(v)) } }
pub fn opt_d_see(x: &Option<D>) -> u32 { x.as_ref().map_or(6, |d| d.v) }
pub fn opt_d_by(x: Option<D>) -> u32 { x.map_or(5, |d| d.v) }
pub fn opt_d(some: bool, v: u32) -> Option<D> { if some { Some(D::new(v)) } else { None } }
pub fn opt_i64(x: Option<i64>, y: i64) -> i64 { x.unwrap_or(y) }
pub fn nested(x: u8) -> Option<Option<u8>> { match x { 0 => None, 1 => Some(None), v => Some(Some(v)) } }
pub fn nested_by(x: Option<Option<u8>>) -> u32 { match x { None => 0x100, Some(None) => 0x101, Some(Some(v)) => v as u32 } }
pub fn t3(x: (u8, D, u16)) -> (u16, D, u8) { (x.2, x.1, x.0) }
pub fn t_nested(x: ((u8, u16), u32)) -> (u32, (u16, u8)) { (x.1, (x.0.1, x.0.0)) }
