import os
from vp.gen import Generator, run_generated
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "translation_validation"
CHECKER_CMD = "bin/check C24 (cargo build -p cc_bindings_from_rs; the generator on checks/C24/gen; rustc and clang++ to LLVM IR | llvm-link | opt | ir2c | cbmc; clang's type checker on the compile-time contracts)"
FUNCTIONS = ["the C++ operators, comparisons, conversions, constructors, begin/end, trait implementations, constants and aliases that cc_bindings_from_rs generates",
             "generate_function.rs, generate_struct_and_union.rs, generate_operators, trait implementations, constants and name handling of the generator (through what they generate)",
             "rs::IteratorAdapter as used by the generated code"]
TRUSTED = ["rustc nightly and clang 18 (front ends and LLVM IR), llvm-link and LLVM's sroa", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["the generator is validated on the crate in checks/C24/gen: the generated code is verified for all values, the generator itself is not verified for all crates",
               "lib/gen/rs_std.h declares the names of the standard library's traits (its bindings are not part of the repository)",
               "iterators of up to 4 items (3 objects); no unwinding (panic=abort)"]
T = "#include <compare>\nusing namespace ops; "
ACCEPT = [
    ("integer constants", T + "static_assert(K_I8 == -128 && K_I16 == -30000 && K_I32 == INT32_MIN && K_I64 == INT64_MIN && K_U8 == 255 && K_U16 == 65535 && K_U32 == 0xffffffff && K_U64 == 0xfffffffffffffffe && K_ISIZE == -7 && K_USIZE == UINT64_MAX && K_SUM == 65536);"),
    ("the constants have their types", T + "template <typename A, typename B> constexpr bool s = std::is_same_v<A, const B>; static_assert(s<decltype(K_I8), int8_t> && s<decltype(K_I16), int16_t> && s<decltype(K_I32), int32_t> && s<decltype(K_I64), int64_t> && s<decltype(K_U8), uint8_t> && s<decltype(K_U16), uint16_t> && s<decltype(K_U32), uint32_t> && s<decltype(K_U64), uint64_t> && s<decltype(K_ISIZE), intptr_t> && s<decltype(K_USIZE), uintptr_t> && s<decltype(K_TRUE), bool> && s<decltype(K_F32), float> && s<decltype(K_F64), double>);"),
    ("other constants", T + "static_assert(K_TRUE && !K_FALSE && K_F32 == 1.5f && K_F64 == -2.25);"),
    ("constants of modules and types", T + "static_assert(consts::INNER == 42 && consts::delete_ == 43 && N::ZERO == 0 && N::LIMIT == 0x80000001 && Shape::impl<Sq>::SIDES == 4 && Shape::impl<Tri>::SIDES == 3);"),
    ("partial and total orders", T + "static_assert(std::is_same_v<decltype(std::declval<N>() <=> std::declval<N>()), std::partial_ordering> && std::is_same_v<decltype(total(1, 2) <=> total(1, 2)), std::strong_ordering>);"),
    ("the associated type of an iterator", T + "static_assert(std::is_same_v<rs_std::impl<Down, rs::core::iter::Iterator>::Item, uint8_t> && std::is_same_v<rs_std::impl<Objects, rs::core::iter::Iterator>::Item, D>);"),
    ("which types implement a trait", T + "static_assert(Shape::impl<Sq>::kIsImplemented && Shape::impl<Tri>::kIsImplemented && rs_std::impl<Total, rs::core::cmp::Ord>::kIsImplemented);"),
    ("an item of several names is one item", T + "static_assert(std::is_same_v<Alias, D> && std::is_same_v<outer::inner::T, outer::Renamed>);"),
    ("shared access suffices to read", T + "uint32_t f(const D& d, const N& n) { return d[0] + (n + n).v + (d == d) + (n < n); }"),
]
REJECT = [
    ("a type without Add has no +", T + "auto f(Total a) { return a + a; }"),
    ("a type without PartialOrd has no order", T + "bool f(const D& a) { return a < a; }"),
    ("a type without PartialEq has no equality", T + "bool f(const Sq& a) { return a == a; }"),
    ("an operator that consumes an object needs a temporary", T + "uint32_t f(D& d) { return -d; }"),
    ("an assigning operator needs a mutable object", T + "void f(const N& n) { n += n; }"),
    ("an index into an immutable object is not written", T + "void f(const D& d) { d[0] = 1; }"),
    ("conversions are explicit", T + "uint32_t f(D& d) { return d; }"),
    ("conversions into objects are explicit", T + "D f() { return 5u; }"),
    ("there is no conversion without From", T + "Sq f(D& d) { return static_cast<Sq>(d); }"),
    ("a type does not implement what it does not", T + "auto f(const D& d) { return Shape::impl<D>::area(d, 1); }"),
    ("a trait method that changes the object needs a mutable one", T + "void f(const Sq& q) { Shape::impl<Sq>::grow(q, 1); }"),
    ("types are compared with what they can be", T + "bool f(N n) { return n == total(1, 2); }"),
    ("a constant is not changed", T + "void f() { const_cast<const uint32_t&>(K_U32) = 1; }"),
    ("what is no iterator is not iterated", T + "void f(D& d) { for (auto x : d) {} }"),
]


def run_check(tier, work):
    gen = Generator()
    at = lambda f: os.path.join(HERE, "gen", f)
    return run_generated(gen, "ops", at("ops.rs"), [at("ops.cc")], os.path.join(work, "gen"), unwind=8, accept=ACCEPT, reject=REJECT)
