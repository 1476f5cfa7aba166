//! Enums and options whose variants are told apart by niches, and tagged ones at the edges; checked by C23.
#![allow(dead_code)]
use core::mem::{align_of, size_of};
static mut LIVE: i32 = 0x57a1_0000;
pub fn live() -> i32 { unsafe { LIVE } }
pub struct D { pub v: u32 }
impl D { pub fn new(v: u32) -> D { unsafe { LIVE += 1 } D { v } } pub fn v(&self) -> u32 { self.v } }
impl Drop for D { fn drop(&mut self) { unsafe { LIVE -= 1 } } }
impl Default for D { fn default() -> D { D::new(0xd0) } }
impl Clone for D { fn clone(&self) -> D { D::new(self.v) } }

#[derive(Clone, Copy)] pub enum Flag { A(bool), B, C }
pub fn flag(w: u8, x: bool) -> Flag { match w { 0 => Flag::A(x), 1 => Flag::B, _ => Flag::C } }
pub fn flag_is(f: &Flag) -> u8 { match f { Flag::A(x) => *x as u8, Flag::B => 2, Flag::C => 3 } }
#[derive(Clone, Copy)] pub enum Late { A { x: u32, y: u16, f: bool }, B, C, E }
pub fn late(w: u8, x: u32, y: u16, f: bool) -> Late { match w { 0 => Late::A { x, y, f }, 1 => Late::B, 2 => Late::C, _ => Late::E } }
pub fn late_is(l: &Late) -> u64 { match l { Late::A { x, y, f } => *x as u64 ^ (*y as u64) << 32 ^ (*f as u64) << 48, Late::B => 1 << 60, Late::C => 2 << 60, Late::E => 3 << 60 } }
#[derive(Clone, Copy)] pub enum Ref<'a> { A(&'a u32), B }
pub fn ref_is(r: &Ref<'_>) -> u32 { match r { Ref::A(x) => **x, Ref::B => 77 } }
pub fn reference<'a>(x: &'a u32, w: bool) -> Ref<'a> { if w { Ref::A(x) } else { Ref::B } }
#[derive(Clone, Copy)] pub enum Two { A(Option<bool>), B(u8, u8), C }
pub fn two(w: u8, x: u8, y: u8) -> Two { match w { 0 => Two::A(if x > 1 { None } else { Some(x == 1) }), 1 => Two::B(x, y), _ => Two::C } }
pub fn two_is(t: &Two) -> u32 { match t { Two::A(None) => 0, Two::A(Some(x)) => 1 + *x as u32, Two::B(x, y) => 0x10000 + ((*x as u32) << 8) + *y as u32, Two::C => 9 } }
#[derive(Clone, Copy)] #[repr(u8)] pub enum Tu { A(u32), B(u8, u64), C = 200 }
pub fn tu_is(t: &Tu) -> u64 { match t { Tu::A(x) => *x as u64, Tu::B(x, y) => *x as u64 ^ y.rotate_left(7), Tu::C => 5 } }
pub fn tu(w: u8, x: u32, y: u8, z: u64) -> Tu { match w { 0 => Tu::A(x), 1 => Tu::B(y, z), _ => Tu::C } }
#[derive(Clone, Copy)] #[repr(i8)] pub enum Ti { A(u32) = -3, B = 5, C(u8, u64) }
pub fn ti_is(t: &Ti) -> u64 { match t { Ti::A(x) => *x as u64, Ti::B => 6, Ti::C(x, y) => *x as u64 ^ y.rotate_left(7) } }
pub fn ti(w: u8, x: u32, y: u8, z: u64) -> Ti { match w { 0 => Ti::A(x), 1 => Ti::B, _ => Ti::C(y, z) } }
#[derive(Clone, Copy)] #[repr(C, i16)] pub enum Ci { A(u8) = -300, B(u64) = 9, C }
pub fn ci_is(t: &Ci) -> u64 { match t { Ci::A(x) => *x as u64, Ci::B(x) => x.rotate_left(1), Ci::C => 8 } }
pub fn ci(w: u8, x: u8, y: u64) -> Ci { match w { 0 => Ci::A(x), 1 => Ci::B(y), _ => Ci::C } }
#[derive(Clone, Copy)] #[repr(C)] pub enum Neg { A = -1, B = 70000, C }
pub fn neg_is(t: &Neg) -> i32 { *t as i32 }
#[derive(Clone, Copy)] #[repr(u32)] pub enum Big { A = 0xffff_ffff, B = 0x8000_0000, C = 1 }
pub fn big_is(t: Big) -> u32 { t as u32 }
pub fn big(w: u8) -> Big { match w { 0 => Big::A, 1 => Big::B, _ => Big::C } }
#[derive(Clone, Copy)] #[repr(i64)] pub enum Deep { A = i64::MIN, B = i64::MAX, C = -2 }
pub fn deep_is(t: Deep) -> i64 { t as i64 }
#[derive(Clone, Copy, PartialEq, Eq)] pub enum Gaps { A = 10, B = 20, C = 250, E = 1000 }
pub fn gaps_is(t: Gaps) -> u16 { t as u16 }
pub fn gaps(w: u8) -> Gaps { match w { 0 => Gaps::A, 1 => Gaps::B, 2 => Gaps::C, _ => Gaps::E } }
#[derive(Clone, Copy)] #[repr(C)] pub enum Sized2 { A { a: u8, b: u16 }, B(u8), C { x: u32 } }
pub fn sized2(w: u8, a: u8, b: u16, x: u32) -> Sized2 { match w { 0 => Sized2::A { a, b }, 1 => Sized2::B(a), _ => Sized2::C { x } } }
pub fn sized2_is(s: &Sized2) -> u32 { match s { Sized2::A { a, b } => *a as u32 ^ (*b as u32) << 8, Sized2::B(a) => *a as u32 + 3, Sized2::C { x } => x.rotate_left(2) } }
pub enum Own { A(D), B(D, u8), C }
pub fn own(w: u8, v: u32, x: u8) -> Own { match w { 0 => Own::A(D::new(v)), 1 => Own::B(D::new(v), x), _ => Own::C } }
pub fn own_is(o: &Own) -> u32 { match o { Own::A(d) => d.v, Own::B(d, x) => d.v ^ *x as u32, Own::C => 3 } }
pub fn own_eat(o: Own) -> u32 { own_is(&o) }
impl Default for Own { fn default() -> Own { Own::C } }
impl Clone for Own { fn clone(&self) -> Own { match self { Own::A(d) => Own::A(d.clone()), Own::B(d, x) => Own::B(d.clone(), *x), Own::C => Own::C } } }

pub fn sizes(w: u8) -> usize { match w { 0 => size_of::<Flag>(), 1 => size_of::<Late>(), 2 => size_of::<Ref>(), 3 => size_of::<Two>(), 4 => size_of::<Tu>(), 5 => size_of::<Ti>(), 6 => size_of::<Ci>(), 7 => size_of::<Neg>(), 8 => size_of::<Big>(), 9 => size_of::<Deep>(), 10 => size_of::<Gaps>(), 11 => size_of::<Sized2>(), 12 => size_of::<Own>(), 13 => size_of::<F>(), _ => 0 } }
pub fn aligns(w: u8) -> usize { match w { 0 => align_of::<Flag>(), 1 => align_of::<Late>(), 2 => align_of::<Ref>(), 3 => align_of::<Two>(), 4 => align_of::<Tu>(), 5 => align_of::<Ti>(), 6 => align_of::<Ci>(), 7 => align_of::<Neg>(), 8 => align_of::<Big>(), 9 => align_of::<Deep>(), 10 => align_of::<Gaps>(), 11 => align_of::<Sized2>(), 12 => align_of::<Own>(), 13 => align_of::<F>(), _ => 0 } }

// Options of every encoding, as fields.
pub struct F { pub b: Option<bool>, pub c: Option<char>, pub g: Option<Gaps>, pub f: Option<Flag>, pub l: Option<Late>, pub r: Option<&'static u32>, pub i: Option<i64>, pub bb: Option<Option<bool>>, pub uu: Option<Option<u8>>, pub rb: Result<bool, u8>, pub rr: Result<u8, bool>, pub d: Option<D>, pub z: Option<f32>, pub p: Option<usize> }
impl F {
    pub fn none() -> F { F { b: None, c: None, g: None, f: None, l: None, r: None, i: None, bb: None, uu: None, rb: Err(1), rr: Err(true), d: None, z: None, p: None } }
    pub fn some(v: u64) -> F { F { b: Some(v & 1 == 1), c: char::from_u32(v as u32), g: Some(gaps(v as u8)), f: Some(flag(v as u8, v >> 8 & 1 == 1)), l: Some(late(v as u8, (v >> 8) as u32, (v >> 40) as u16, v >> 60 & 1 == 1)), r: None, i: Some(v as i64), bb: Some(if v & 2 == 2 { Some(v & 1 == 1) } else { None }), uu: Some(if v & 2 == 2 { Some(v as u8) } else { None }), rb: Ok(v & 1 == 1), rr: Ok(v as u8), d: Some(D::new(v as u32)), z: Some(f32::from_bits(0x3f80_0000)), p: Some(v as usize) } }
    pub fn see(&self, w: u8) -> u64 {
        const N: u64 = 1 << 63;
        match w {
            0 => self.b.map_or(N, |x| x as u64), 1 => self.c.map_or(N, |x| x as u64), 2 => self.g.map_or(N, |x| x as u64), 3 => self.f.as_ref().map_or(N, |x| flag_is(x) as u64), 4 => self.l.as_ref().map_or(N, |x| late_is(x)),
            5 => self.r.map_or(N, |x| *x as u64), 6 => self.i.map_or(N, |x| x as u64 & !N), 7 => match self.bb { None => N, Some(None) => 5, Some(Some(x)) => x as u64 }, 8 => match self.uu { None => N, Some(None) => 0x500, Some(Some(x)) => x as u64 },
            9 => match self.rb { Ok(x) => x as u64, Err(e) => 0x100 + e as u64 }, 10 => match self.rr { Ok(x) => x as u64, Err(e) => 0x100 + e as u64 }, 11 => self.d.as_ref().map_or(N, |d| d.v as u64), 12 => self.z.map_or(N, |x| x.to_bits() as u64), _ => self.p.map_or(N, |x| x as u64 & !N),
        }
    }
}
