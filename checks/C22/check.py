import os
from vp.gen import Generator, run_generated
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "translation_validation"
CHECKER_CMD = "bin/check C22 (cargo build -p cc_bindings_from_rs; the generator on checks/C22/gen; rustc and clang++ to LLVM IR | llvm-link | opt | ir2c | cbmc; clang's type checker on the compile-time contracts)"
FUNCTIONS = ["the C++ types that cc_bindings_from_rs generates for structs and unions: fields, padding, layout, default and copy and move constructors, assignments, destructor, relocation, and the thunks of Default, Clone and Drop",
             "generate_struct_and_union.rs, adt_core_bindings.rs, avoid_colliding_types.rs (through what they generate)", "crubit::{Slot,MemSwap}, UnsafeRelocateTag as used by the generated code"]
TRUSTED = ["rustc nightly and clang 18 (front ends and LLVM IR), llvm-link and LLVM's sroa", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["the generator is validated on the crate in checks/C22/gen: each generated type is verified for all values, the generator itself is not verified for all crates",
               "lib/gen/rs_std.h declares the names of the standard library's traits (its bindings are not part of the repository)", "no unwinding (panic=abort)"]
T = "using namespace types; template <typename T> concept Copied = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>; template <typename T> concept Uncopied = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T>; " \
    "template <typename T> concept Moved = std::is_move_constructible_v<T> && std::is_move_assignable_v<T>; template <typename T> concept Unmoved = !std::is_move_constructible_v<T> && !std::is_move_assignable_v<T>; "
ACCEPT = [
    ("Copy types are trivially copied", T + "template <typename T> concept Ok = std::is_trivially_copyable_v<T> && std::is_trivially_copy_constructible_v<T> && std::is_trivially_destructible_v<T>; static_assert(Ok<Plain> && Ok<Mixed> && Ok<Tuple> && Ok<CRepr> && Ok<Packed> && Ok<Aligned> && Ok<Wide> && Ok<Transparent> && Ok<Hidden> && Ok<Overlap> && Ok<RustUnion> && Ok<WithZst>);"),
    ("types without Clone are not copied", T + "static_assert(Uncopied<Owner> && Uncopied<Nested> && Uncopied<NoMove> && Uncopied<Neither> && Uncopied<Names> && Uncopied<Derived> && Uncopied<Zeroed>);"),
    ("Clone types are copied", T + "static_assert(Copied<Full> && Copied<OnlyClone> && Copied<OwnClone>);"),
    ("types with a destructor and a default are moved", T + "static_assert(Moved<Owner> && Moved<Full> && Moved<Nested>);"),
    ("types without a destructor are moved", T + "static_assert(Moved<Neither> && Moved<OnlyClone> && Moved<OwnClone> && Moved<Names> && Moved<Refs> && Moved<Derived>);"),
    ("types with a destructor and no default are not moved", T + "static_assert(Unmoved<NoMove> && Uncopied<NoMove>);"),
    ("only Default types have a default constructor", T + "template <typename T> constexpr bool d = std::is_default_constructible_v<T>; static_assert(d<Owner> && d<Full> && d<Nested> && d<Derived> && d<Zeroed> && !d<Plain> && !d<NoMove> && !d<Neither> && !d<OnlyClone> && !d<Hidden> && !d<Overlap> && !d<Transparent>);"),
    ("destructors exist where Rust drops", T + "template <typename T> constexpr bool t = std::is_trivially_destructible_v<T>; static_assert(!t<Owner> && !t<Full> && !t<Nested> && !t<NoMove> && t<Neither> && t<Derived> && t<OwnClone> && t<Refs>);"),
    ("the fields have their types", T + "static_assert(std::is_same_v<decltype(Mixed::a), uint8_t> && std::is_same_v<decltype(Mixed::b), uint64_t> && std::is_same_v<decltype(Mixed::c), uint16_t> && std::is_same_v<decltype(Mixed::d), bool> && std::is_same_v<decltype(Mixed::e), float> && std::is_same_v<decltype(Mixed::f), std::array<uint16_t, 3>> && std::is_same_v<decltype(Mixed::g), int64_t> && std::is_same_v<decltype(Mixed::h), const uint8_t*> && std::is_same_v<decltype(Mixed::i), rs_std::char_>);"),
    ("methods that only read are const", T + "uint32_t f(const Owner& o, const Hidden& h, const Names& n) { return o.v() + h.a() + h.c() + h.secret() + n.value() + n.template_(); }"),
    ("the types are final", T + "static_assert(std::is_final_v<Plain> && std::is_final_v<Owner>);"),
]
REJECT = [
    ("a private field is private", T + "uint32_t f(Hidden& h) { return h.a_; }"),
    ("a private field of a tuple struct is private", T + "uint32_t f(Tuple& t) { return t.__field2; }"),
    ("a struct of private fields is not read", T + "uint16_t f(Secret2& s) { return s.s; }"),
    ("a private type is not bound", T + "Secret* p;"),
    ("a method that changes the object is not const", T + "void f(const Hidden& h) { h.set_b(1); }"),
    ("a method that consumes the object needs a temporary", T + "uint32_t f(Neither& n) { return n.eat(); }"),
    ("a type that cannot be moved is not passed by value", T + "uint32_t f(NoMove& n) { return std::move(n).eat(); }"),
    ("a private function is not bound", T + "void f() { types::born(); }"),
    ("a struct is not made from nothing", T + "Plain p;"),
    ("nor from its fields", T + "Plain p{1, 2};"),
    ("a reference to an immutable field's target is const", T + "void f(Refs& r) { *r.r = 1; }"),
]


def run_check(tier, work):
    gen = Generator()
    at = lambda f: os.path.join(HERE, "gen", f)
    return run_generated(gen, "types", at("types.rs"), [at("types.cc")], os.path.join(work, "gen"), accept=ACCEPT, reject=REJECT)
