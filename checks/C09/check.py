import os
from vp.cpp import run_cpp, run_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C09 (clang++ -O0 | opt | ir2c | cbmc)"
FUNCTIONS = ["rs::IteratorAdapter<I>: constructor, operator*, operator++ (both), iter_move, operator==, copy, move, assignment", "rs_std::impl<T*, Iterator>::next", "rs_std::where, rs_std::where_v"]
TRUSTED = ["clang 18 front end", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["the source is any iterator with arbitrary items, at any position, of any length below 2^64 - 4; one step from any position is proved, the whole sequence follows by induction",
               "items_are_owned: at most 3 items (the other harnesses have no bound)"]


def run_check(tier, work):
    out = run_cpp(os.path.join(HERE, "cpp/iter.cc"), work, unwind=12, bounds={"items_are_owned": "at most 3 items"})
    pre = """#include <iterator>
#include "support/rs_std/iterator_adapter.h"
namespace rs::core::iter { struct Iterator {}; }
struct A { int n; }; struct M { M(M&&) = default; M& operator=(M&&) = default; int n; }; struct N {};
namespace rs_std {
template <> struct impl<A, rs::core::iter::Iterator> { static constexpr bool kIsImplemented = true; using Item = int; static std::optional<int> next(A& a); };
template <> struct impl<M, rs::core::iter::Iterator> { static constexpr bool kIsImplemented = true; using Item = int; static std::optional<int> next(M& a); };
}
using namespace rs;
"""
    acc = [("adapters are input iterators", "static_assert(std::input_iterator<IteratorAdapter<A>> && std::input_iterator<IteratorAdapter<M>> && std::input_iterator<IteratorAdapter<A*>>);"),
           ("the end is their sentinel", "static_assert(std::sentinel_for<IteratorEnd, IteratorAdapter<A>> && std::sentinel_for<IteratorEnd, IteratorAdapter<M>>);"),
           ("copyable iff the source is", "static_assert(std::is_copy_constructible_v<IteratorAdapter<A>> && !std::is_copy_constructible_v<IteratorAdapter<M>> && std::is_move_constructible_v<IteratorAdapter<M>>);"),
           ("traits are implemented by whom they are implemented", "static_assert(rs_std::where_v<A, rs::core::iter::Iterator> && !rs_std::where_v<N, rs::core::iter::Iterator> && rs_std::where_v<N, rs::core::marker::Unpin> && rs_std::where_v<A, rs::core::marker::Unpin, rs::core::iter::Iterator> && !rs_std::where_v<N, rs::core::marker::Unpin, rs::core::iter::Iterator>);")]
    rej = [("only iterators can be adapted", "IteratorAdapter<N> f(N n) { return IteratorAdapter<N>(n); }")]
    return out + run_static("concepts", work, pre, acc, rej)
