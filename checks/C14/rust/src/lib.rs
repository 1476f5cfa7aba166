//! Contracts of toposort, for every graph of three nodes and some of four, each
//! with several preferences (ties included).
#![feature(prelude_import)]
#![no_std]
#[macro_use]
extern crate stdshim as std;
#[prelude_import]
#[allow(unused)]
use std::bounded_prelude::*;

#[path = "@REPO@/cc_bindings_from_rs/toposort.rs"]
mod toposort;

#[cfg(kani)]
mod harness {
    use super::toposort::*;
    use core::cmp::Ordering;

    /// The graph of N nodes, numbered 0..N in the order of the input, with these edges,
    /// and each of these preferences.
    fn graph<const N: usize, const E: usize, const R: usize>(edges: [(u8, u8); E], reversed: bool, ranks: [[u8; N]; R]) {
        unsafe { std::collections::hash_map::REVERSED = reversed; }
        for i in 0..R { sorted(&edges, &ranks[i]); }
        kani::cover!(true, "MUST: it returns");
    }
    const THREE: [[u8; 3]; 4] = [[0, 1, 2], [2, 0, 1], [1, 0, 0], [0, 0, 0]];
    const FOUR: [[u8; 4]; 3] = [[3, 2, 1, 0], [2, 0, 3, 1], [1, 1, 0, 0]];
    fn sorted<const N: usize, const E: usize>(edges: &[(u8, u8); E], rank: &[u8; N]) {
        let m = E;
        let r = toposort(
            (0..N).map(|i| i as u8),
            (0..m).map(|i| Dependency { predecessor: edges[i].0, successor: edges[i].1 }),
            |a: &u8, b: &u8| rank[*a as usize].cmp(&rank[*b as usize]),
        );
        // every node is in exactly one place
        let no = r.ordered.len();
        assert!(no + r.failed.len() == N, "as many nodes come out as went in");
        let mut at = [usize::MAX; N];
        let mut seen = [0u8; N];
        for i in 0..N { if i < no { let x = r.ordered[i] as usize; assert!(x < N); at[x] = i; seen[x] += 1; } }
        let mut last: Option<usize> = None;
        for i in 0..N { if i < r.failed.len() {
            let x = r.failed[i] as usize; assert!(x < N); seen[x] += 1;
            if let Some(l) = last { assert!(rank[l] <= rank[x], "failed nodes are in the preferred order"); }
            last = Some(x);
        } }
        for i in 0..N { assert!(seen[i] == 1, "every node comes out exactly once"); }
        // dependencies
        for i in 0..E { if i < m {
            let (p, s) = (edges[i].0 as usize, edges[i].1 as usize);
            if at[s] != usize::MAX { assert!(at[p] != usize::MAX && at[p] < at[s], "a predecessor comes before its successor"); }
        } }
        // a node fails only because of another one that fails
        for x in 0..N { if at[x] == usize::MAX {
            let mut blamed = false;
            for i in 0..E { if i < m && edges[i].1 as usize == x && at[edges[i].0 as usize] == usize::MAX { blamed = true; } }
            assert!(blamed, "only nodes of cycles and nodes that depend on one fail");
        } }
        // at every place, the most preferred node that could stand there
        for x in 0..N { if at[x] != usize::MAX {
            let mut ready = 0;
            for i in 0..E { if i < m && edges[i].1 as usize == x { let p = at[edges[i].0 as usize]; if p + 1 > ready { ready = p + 1; } } }
            for y in 0..N { if y != x && at[y] != usize::MAX && at[y] >= ready && at[y] < at[x] {
                assert!(rank[y] < rank[x] || rank[y] == rank[x] && y < x, "a node waits only for its predecessors and for more preferred nodes");
            } }
        } }
        core::mem::forget(r);
    }
    macro_rules! graphs { ($($n:ident: $k:literal $r:literal $p:ident [$($e:expr),*];)*) => { $(
        #[kani::proof] #[kani::unwind(8)] fn $n() { graph::<$k, _, _>([$($e),*], $r, $p) }
    )* } }
    graphs! {
        b_g3_empty: 3 false THREE [];
        b_g3_01: 3 true THREE [(0, 1)];
        b_g3_02: 3 false THREE [(0, 2)];
        b_g3_02_01: 3 true THREE [(0, 2), (0, 1)];
        b_g3_10: 3 false THREE [(1, 0)];
        b_g3_10_01: 3 true THREE [(1, 0), (0, 1)];
        b_g3_02_10: 3 false THREE [(0, 2), (1, 0)];
        b_g3_10_02_01: 3 true THREE [(1, 0), (0, 2), (0, 1)];
        b_g3_12: 3 false THREE [(1, 2)];
        b_g3_12_01: 3 true THREE [(1, 2), (0, 1)];
        b_g3_02_12: 3 false THREE [(0, 2), (1, 2)];
        b_g3_12_02_01: 3 true THREE [(1, 2), (0, 2), (0, 1)];
        b_g3_10_12: 3 false THREE [(1, 0), (1, 2)];
        b_g3_12_10_01: 3 true THREE [(1, 2), (1, 0), (0, 1)];
        b_g3_02_10_12: 3 false THREE [(0, 2), (1, 0), (1, 2)];
        b_g3_12_10_02_01: 3 true THREE [(1, 2), (1, 0), (0, 2), (0, 1)];
        b_g3_20: 3 false THREE [(2, 0)];
        b_g3_20_01: 3 true THREE [(2, 0), (0, 1)];
        b_g3_02_20: 3 false THREE [(0, 2), (2, 0)];
        b_g3_20_02_01: 3 true THREE [(2, 0), (0, 2), (0, 1)];
        b_g3_10_20: 3 false THREE [(1, 0), (2, 0)];
        b_g3_20_10_01: 3 true THREE [(2, 0), (1, 0), (0, 1)];
        b_g3_02_10_20: 3 false THREE [(0, 2), (1, 0), (2, 0)];
        b_g3_20_10_02_01: 3 true THREE [(2, 0), (1, 0), (0, 2), (0, 1)];
        b_g3_12_20: 3 false THREE [(1, 2), (2, 0)];
        b_g3_20_12_01: 3 true THREE [(2, 0), (1, 2), (0, 1)];
        b_g3_02_12_20: 3 false THREE [(0, 2), (1, 2), (2, 0)];
        b_g3_20_12_02_01: 3 true THREE [(2, 0), (1, 2), (0, 2), (0, 1)];
        b_g3_10_12_20: 3 false THREE [(1, 0), (1, 2), (2, 0)];
        b_g3_20_12_10_01: 3 true THREE [(2, 0), (1, 2), (1, 0), (0, 1)];
        b_g3_02_10_12_20: 3 false THREE [(0, 2), (1, 0), (1, 2), (2, 0)];
        b_g3_20_12_10_02_01: 3 true THREE [(2, 0), (1, 2), (1, 0), (0, 2), (0, 1)];
        b_g3_21: 3 false THREE [(2, 1)];
        b_g3_21_01: 3 true THREE [(2, 1), (0, 1)];
        b_g3_02_21: 3 false THREE [(0, 2), (2, 1)];
        b_g3_21_02_01: 3 true THREE [(2, 1), (0, 2), (0, 1)];
        b_g3_10_21: 3 false THREE [(1, 0), (2, 1)];
        b_g3_21_10_01: 3 true THREE [(2, 1), (1, 0), (0, 1)];
        b_g3_02_10_21: 3 false THREE [(0, 2), (1, 0), (2, 1)];
        b_g3_21_10_02_01: 3 true THREE [(2, 1), (1, 0), (0, 2), (0, 1)];
        b_g3_12_21: 3 false THREE [(1, 2), (2, 1)];
        b_g3_21_12_01: 3 true THREE [(2, 1), (1, 2), (0, 1)];
        b_g3_02_12_21: 3 false THREE [(0, 2), (1, 2), (2, 1)];
        b_g3_21_12_02_01: 3 true THREE [(2, 1), (1, 2), (0, 2), (0, 1)];
        b_g3_10_12_21: 3 false THREE [(1, 0), (1, 2), (2, 1)];
        b_g3_21_12_10_01: 3 true THREE [(2, 1), (1, 2), (1, 0), (0, 1)];
        b_g3_02_10_12_21: 3 false THREE [(0, 2), (1, 0), (1, 2), (2, 1)];
        b_g3_21_12_10_02_01: 3 true THREE [(2, 1), (1, 2), (1, 0), (0, 2), (0, 1)];
        b_g3_20_21: 3 false THREE [(2, 0), (2, 1)];
        b_g3_21_20_01: 3 true THREE [(2, 1), (2, 0), (0, 1)];
        b_g3_02_20_21: 3 false THREE [(0, 2), (2, 0), (2, 1)];
        b_g3_21_20_02_01: 3 true THREE [(2, 1), (2, 0), (0, 2), (0, 1)];
        b_g3_10_20_21: 3 false THREE [(1, 0), (2, 0), (2, 1)];
        b_g3_21_20_10_01: 3 true THREE [(2, 1), (2, 0), (1, 0), (0, 1)];
        b_g3_02_10_20_21: 3 false THREE [(0, 2), (1, 0), (2, 0), (2, 1)];
        b_g3_21_20_10_02_01: 3 true THREE [(2, 1), (2, 0), (1, 0), (0, 2), (0, 1)];
        b_g3_12_20_21: 3 false THREE [(1, 2), (2, 0), (2, 1)];
        b_g3_21_20_12_01: 3 true THREE [(2, 1), (2, 0), (1, 2), (0, 1)];
        b_g3_02_12_20_21: 3 false THREE [(0, 2), (1, 2), (2, 0), (2, 1)];
        b_g3_21_20_12_02_01: 3 true THREE [(2, 1), (2, 0), (1, 2), (0, 2), (0, 1)];
        b_g3_10_12_20_21: 3 false THREE [(1, 0), (1, 2), (2, 0), (2, 1)];
        b_g3_21_20_12_10_01: 3 true THREE [(2, 1), (2, 0), (1, 2), (1, 0), (0, 1)];
        b_g3_02_10_12_20_21: 3 false THREE [(0, 2), (1, 0), (1, 2), (2, 0), (2, 1)];
        b_g3_21_20_12_10_02_01: 3 true THREE [(2, 1), (2, 0), (1, 2), (1, 0), (0, 2), (0, 1)];
        b_loop: 3 false THREE [(1, 1)];
        b_loop_and_more: 3 true THREE [(1, 1), (0, 1), (2, 0)];
        b_twice: 3 false THREE [(1, 0), (1, 0)];
        b_twice_and_more: 3 true THREE [(1, 0), (1, 0), (2, 1)];
        b_chain: 4 false FOUR [(3, 2), (2, 1), (1, 0)];
        b_diamond: 4 true FOUR [(0, 1), (0, 2), (1, 3), (2, 3)];
        b_star: 4 false FOUR [(3, 0), (3, 1), (3, 2)];
        b_join: 4 true FOUR [(1, 0), (2, 0), (3, 0)];
        b_two_pairs: 4 false FOUR [(1, 0), (3, 2)];
        b_cycle_tail: 4 true FOUR [(0, 1), (1, 0), (1, 2), (3, 0)];
        b_cycle_beside: 4 false FOUR [(0, 1), (1, 0), (3, 2)];
        b_cycle_three: 4 true FOUR [(0, 1), (1, 2), (2, 0), (2, 3)];
    }
    /// Naming a node that is not there is refused.
    #[kani::proof] #[kani::should_panic] #[kani::unwind(6)] fn b_unknown_must_panic() {
        let _ = toposort([0u8, 1], [Dependency { predecessor: 0, successor: 7 }], u8::cmp);
    }
    #[kani::proof] #[kani::should_panic] #[kani::unwind(6)] fn b_unknown_predecessor_must_panic() {
        let _ = toposort([0u8, 1], [Dependency { predecessor: 7, successor: 0 }], u8::cmp);
    }
}
