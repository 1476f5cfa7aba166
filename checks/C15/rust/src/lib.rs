//! Contracts of memoization: a query returns what computing it returns, it is
//! computed once, cycles are broken without leaving wrong values behind, and
//! databases do not see each other's values.
#![feature(prelude_import)]
#![no_std]
#[macro_use]
extern crate stdshim as std;
#[prelude_import]
#[allow(unused)]
use std::bounded_prelude::*;

#[path = "@REPO@/common/memoized.rs"]
pub mod memoized;
pub use memoized::internal;

#[cfg(kani)]
mod harness {
    use core::cell::Cell;

    // ---- pure functions -------------------------------------------------------
    crate::query_group! {
        pub struct Db<'a> {
            #[input] fn salt(&self) -> u8;
            #[input] fn calls(&self) -> &'a Cell<u32>;
            fn one(&self, x: u8) -> u8;
            fn two(&self, x: u8, y: u8) -> (u8, u8);
            fn none(&self) -> u8;
            fn chain(&self, x: u8) -> u8;
            #[provided]
            fn both(&self, x: u8) -> u8 { self.one(x) ^ self.none() }
        }
    }
    fn count(db: &Db) { db.calls().set(db.calls().get() + 1); }
    fn one(db: &Db, x: u8) -> u8 { count(db); x.wrapping_mul(3) ^ db.salt() }
    fn two(db: &Db, x: u8, y: u8) -> (u8, u8) { count(db); (y ^ db.salt(), x) }
    fn none(db: &Db) -> u8 { count(db); !db.salt() }
    fn chain(db: &Db, x: u8) -> u8 { count(db); if x & 1 == 1 { db.chain(x - 1).wrapping_add(1) } else { x ^ db.salt() } }
    fn pure_chain(salt: u8, x: u8) -> u8 { if x & 1 == 1 { ((x - 1) ^ salt).wrapping_add(1) } else { x ^ salt } }

    #[kani::proof] #[kani::unwind(5)]
    fn values_are_those_of_the_function() {
        let calls = Cell::new(0);
        let salt: u8 = kani::any();
        let db = Db::new(salt, &calls, one, two, none, chain);
        let (x, y): (u8, u8) = kani::any();
        assert!(db.salt() == salt, "an input is the one that was given");
        assert!(db.one(x) == x.wrapping_mul(3) ^ salt, "first call");
        assert!(calls.get() == 1, "computed");
        assert!(db.one(y) == y.wrapping_mul(3) ^ salt, "second call");
        assert!(calls.get() == if x == y { 1 } else { 2 }, "computed once for each argument");
        kani::cover!(x == y, "MUST: the same argument");
        kani::cover!(x != y, "MUST: different arguments");
    }
    #[kani::proof] #[kani::unwind(5)]
    fn values_are_kept() {
        let calls = Cell::new(0);
        let salt: u8 = kani::any();
        let db = Db::new(salt, &calls, one, two, none, chain);
        let (x, y): (u8, u8) = kani::any();
        kani::assume(x != y);
        let a = db.one(x);
        let b = db.one(y);
        assert!(db.one(x) == a && calls.get() == 2, "not computed again");
        assert!(db.one(y) == b && calls.get() == 2, "not computed again");
    }
    #[kani::proof] #[kani::unwind(5)]
    fn queries_without_arguments() {
        let calls = Cell::new(0);
        let salt: u8 = kani::any();
        let db = Db::new(salt, &calls, one, two, none, chain);
        assert!(db.none() == !salt && db.none() == !salt && calls.get() == 1, "no arguments");
        let x: u8 = kani::any();
        assert!(db.both(x) == x.wrapping_mul(3) ^ salt ^ !salt && calls.get() == 2, "a provided function uses the memoized ones");
        assert!(db.both(x) == x.wrapping_mul(3) ^ salt ^ !salt && calls.get() == 2, "a provided function uses the memoized ones");
    }
    #[kani::proof] #[kani::unwind(5)]
    fn arguments_are_told_apart() {
        let calls = Cell::new(0);
        let salt: u8 = kani::any();
        let db = Db::new(salt, &calls, one, two, none, chain);
        let (x, y, z, w): (u8, u8, u8, u8) = kani::any();
        assert!(db.two(x, y) == (y ^ salt, x), "all arguments arrive in order");
        assert!(db.two(z, w) == (w ^ salt, z), "all arguments are compared");
        assert!(calls.get() == if x == z && y == w { 1 } else { 2 }, "computed once for each argument");
        assert!(db.one(x) == x.wrapping_mul(3) ^ salt, "functions do not share their tables");
        kani::cover!(x == w && y == z && x != y, "MUST: swapped");
    }
    #[kani::proof] #[kani::unwind(5)]
    fn queries_may_use_queries() {
        let calls = Cell::new(0);
        let salt: u8 = kani::any();
        let db = Db::new(salt, &calls, one, two, none, chain);
        let x: u8 = kani::any();
        assert!(db.chain(x) == pure_chain(salt, x), "recursion on other arguments is no cycle");
        assert!(calls.get() == if x & 1 == 1 { 2 } else { 1 }, "each is computed once");
        if x & 1 == 1 { assert!(db.chain(x - 1) == pure_chain(salt, x - 1) && calls.get() == 2, "the inner call was cached"); }
        assert!(db.chain(x) == pure_chain(salt, x) && calls.get() <= 2, "and so was the outer one");
        kani::cover!(x & 1 == 1, "MUST: recursion");
    }
    #[kani::proof] #[kani::unwind(5)]
    fn databases_are_separate() {
        let (c1, c2) = (Cell::new(0), Cell::new(0));
        let (s1, s2): (u8, u8) = kani::any();
        let a = Db::new(s1, &c1, one, two, none, chain);
        let b = Db::new(s2, &c2, one, two, none, chain);
        let x: u8 = kani::any();
        assert!(a.one(x) == x.wrapping_mul(3) ^ s1, "the first database");
        assert!(b.one(x) == x.wrapping_mul(3) ^ s2 && c2.get() == 1, "the second one computes its own value");
        assert!(a.one(x) == x.wrapping_mul(3) ^ s1 && c1.get() == 1, "the first is not affected");
    }

    // ---- cycles ---------------------------------------------------------------
    /// A graph of three nodes: which nodes a node reads, given as bits.
    crate::query_group! {
        pub struct Graph<'a> {
            #[input] fn reads(&self) -> &'a [u8; 3];
            #[input] fn own(&self) -> &'a [u8; 3];
            #[input] fn calls(&self) -> &'a [Cell<u32>; 3];
            #[break_cycles_with = 0]
            fn any(&self, n: u8) -> u8;
        }
    }
    fn any(db: &Graph, n: u8) -> u8 {
        let i = n as usize;
        db.calls()[i].set(db.calls()[i].get() + 1);
        let r = db.reads()[i];
        let mut v = db.own()[i];
        let a = if r & 1 != 0 { db.any(0) } else { 0 };
        let b = if r & 2 != 0 { db.any(1) } else { 0 };
        let c = if r & 4 != 0 { db.any(2) } else { 0 };
        v |= a; v |= b; v |= c;
        v
    }
    /// The union of the properties of all nodes that can be reached from `n`.
    fn reachable(reads: [u8; 3], own: [u8; 3], n: usize) -> u8 {
        let mut set = 1u8 << n;
        let mut k = 0;
        while k < 3 {
            let mut i = 0;
            while i < 3 { if set >> i & 1 == 1 { set |= reads[i] & 7; } i += 1; }
            k += 1;
        }
        (if set & 1 != 0 { own[0] } else { 0 }) | (if set & 2 != 0 { own[1] } else { 0 }) | (if set & 4 != 0 { own[2] } else { 0 })
    }
    /// The specification: the value of a node whose callers are in progress is
    /// the default; a node that read a value in progress of a caller is not kept.
    fn graph(reads: [u8; 3], first: u8, second: u8) {
        let own: [u8; 3] = kani::any();
        let calls = [const { Cell::new(0) }; 3];
        let db = Graph::new(&reads, &own, &calls, any);
        let v = db.any(first);
        assert!(v == reachable(reads, own, first as usize), "the query that is asked for is right in spite of cycles");
        assert!(db.__unwinding_cycles.get() == 0, "no cycle is left open");
        let n = calls[first as usize].get();
        assert!(db.any(first) == v && calls[first as usize].get() == n, "and cached");
        let w = db.any(second);
        assert!(w == reachable(reads, own, second as usize), "no value that was computed from a default is kept for later");
        let m = calls[second as usize].get();
        assert!(db.any(second) == w && calls[second as usize].get() == m, "the second one is cached, too");
        kani::cover!(v != 0 && w != 0, "MUST: it returns");
    }
    macro_rules! graphs { ($($n:ident: $r:expr, $a:literal, $b:literal;)*) => { $( #[kani::proof] #[kani::unwind(5)] fn $n() { graph($r, $a, $b) } )* } }
    graphs! {
        b_no_cycle: [2, 4, 0], 0, 1;
        b_self_cycle: [1, 0, 0], 0, 1;
        b_self_and_more: [3, 0, 0], 0, 1;
        b_pair_cycle: [2, 1, 0], 0, 1;
        b_pair_cycle_back: [2, 1, 0], 1, 0;
        b_pair_and_leaf: [6, 1, 0], 0, 1;
        b_pair_and_leaf_behind: [2, 5, 0], 0, 1;
        b_into_cycle: [2, 4, 2], 0, 1;
        b_into_cycle_far: [2, 4, 2], 0, 2;
        b_two_selves: [3, 2, 0], 0, 1;
        b_three_cycle: [2, 4, 1], 0, 1;
        b_three_cycle_far: [2, 4, 1], 0, 2;
        b_nested: [2, 5, 2], 0, 1;
        b_nested_far: [2, 5, 2], 0, 2;
        b_twice: [2, 3, 0], 0, 1;
        b_diamond: [6, 4, 0], 0, 2;
    }

    // ---- functions memoized beside the database -------------------------------
    crate::query_group! {
        pub struct Plain<'a> {
            #[input] fn salt(&self) -> u8;
            #[input] fn calls(&self) -> &'a Cell<u32>;
        }
    }
    fn beside_impl(db: &Plain<'_>, x: u8) -> u8 { db.calls().set(db.calls().get() + 1); x ^ db.salt() }
    fn failed(_: &str) -> u8 { 255 }
    crate::memoized!(failed, fn beside(db: &Plain<'_>, x: u8) -> u8 = beside_impl);
    fn around_impl(db: &Plain<'_>, x: u8) -> u8 {
        db.calls().set(db.calls().get() + 1);
        let y = around(db, 1 - x);
        if x == 0 { y ^ 1 } else { y ^ 2 }
    }
    crate::memoized!(failed, fn around(db: &Plain<'_>, x: u8) -> u8 = around_impl);

    #[kani::proof] #[kani::unwind(5)]
    fn beside_the_database() {
        let (c1, c2) = (Cell::new(0), Cell::new(0));
        let (s1, s2): (u8, u8) = kani::any();
        let a = Plain::new(s1, &c1);
        let b = Plain::new(s2, &c2);
        let x: u8 = kani::any();
        assert!(beside(&a, x) == x ^ s1, "the value of the function");
        assert!(beside(&b, x) == x ^ s2 && c2.get() == 1, "databases do not share values");
        assert!(beside(&a, x) == x ^ s1 && c1.get() == 1, "computed once");
    }
    #[kani::proof] #[kani::unwind(5)]
    fn beside_the_database_cycle() {
        let c = Cell::new(0);
        let a = Plain::new(0, &c);
        assert!(around(&a, 0) == 255 ^ 2 ^ 1, "a cycle is reported to the handler");
        assert!(c.get() == 2 && a.__unwinding_cycles.get() == 0, "no cycle is left open");
        assert!(around(&a, 0) == 255 ^ 2 ^ 1 && c.get() == 2, "the query that was asked for is cached");
        assert!(around(&a, 1) == 255 ^ 2 ^ 1 ^ 2 && c.get() == 3, "the value in between was not kept");
    }
    /// The tables are kept by the number of the database, so numbers are never shared.
    #[kani::proof] #[kani::unwind(301)]
    fn b_many_databases() {
        let c = Cell::new(0);
        let first = Plain::new(0, &c).__db_index;
        let mut i = 0;
        while i < 299 {
            assert!(Plain::new(0, &c).__db_index != first, "databases do not share a table, however many there are");
            i += 1;
        }
    }
}
