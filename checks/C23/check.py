import os
from vp.gen import Generator, run_generated
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "translation_validation"
CHECKER_CMD = "bin/check C23 (cargo build -p cc_bindings_from_rs; the generator on checks/C23/gen; rustc and clang++ to LLVM IR | llvm-link | opt | ir2c | cbmc; clang's type checker on the compile-time contracts)"
FUNCTIONS = ["the C++ types and functions that cc_bindings_from_rs generates for enums (with and without payloads, with and without repr), Option, Result and tuples: layouts, discriminants, variants, Make functions, accessors, clone, drop, crossing by value and by reference",
             "generate_enum.rs, builtin bridging of Option, Result and tuples in generate_function_thunk.rs and generate_struct_and_union.rs (through what they generate)",
             "rs_std::Option, rs_std::Result, crubit's OptionAbi, TupleAbi and TransmuteAbi as used by the generated code"]
TRUSTED = ["rustc nightly and clang 18 (front ends and LLVM IR), llvm-link and LLVM's sroa", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["the generator is validated on the crate in checks/C23/gen: the generated code is verified for all values, the generator itself is not verified for all crates",
               "lib/gen/rs_std.h declares the names of the standard library's traits (its bindings are not part of the repository)", "no unwinding (panic=abort)",
               "loops are unwound 12 times with unwinding assertions: they run over the bytes of a tag"]
T = "using namespace enums; template <typename T> concept Trivial = std::is_trivially_copyable_v<T> && std::is_trivially_destructible_v<T>; "
ACCEPT = [
    ("Copy enums are trivially copied", T + "static_assert(Trivial<U8> && Trivial<I16> && Trivial<U64> && Trivial<Plain> && Trivial<RC> && Trivial<RU>);"),
    ("an enum with an object in it is neither copied nor trivial", T + "static_assert(!std::is_copy_constructible_v<Pay> && !std::is_copy_assignable_v<Pay> && !std::is_trivially_destructible_v<Pay>);"),
    ("an option of a plain value is trivially copied", T + "static_assert(Trivial<rs_std::Option<uint32_t>>);"),
    ("functions take and give std::optional", T + "static_assert(std::is_same_v<decltype(opt_niche(0)), std::optional<bool>> && std::is_same_v<decltype(opt_d(true, 0)), std::optional<D>> && std::is_same_v<decltype(opt_char(0)), std::optional<rs_std::char_>>); int64_t f() { return opt_i64(std::nullopt, 5) + opt_i64(3, 4); }"),
    ("functions give tuples", T + "static_assert(std::is_same_v<decltype(t_nested({{1, 2}, 3})), std::tuple<uint32_t, std::tuple<uint16_t, uint8_t>>>);"),
    ("functions give results", T + "static_assert(std::is_same_v<decltype(res_u(true, 1)), rs_std::Result<uint32_t, uint8_t>>);"),
    ("an option field is an option", T + "static_assert(std::is_same_v<decltype(Holds::o_), rs_std::Option<uint32_t>>);"),
    ("the object an option holds decides what can be done with it", T + "static_assert(std::is_copy_constructible_v<rs_std::Option<D>> && !std::is_trivially_destructible_v<rs_std::Option<D>>);"),
    ("unit variants are made in constant expressions", T + "constexpr U8 u = U8::MakeB(); constexpr Plain p = Plain::MakeC();"),
]
REJECT = [
    ("an enum is not a number", T + "uint8_t f(U8 u) { return u; }"),
    ("nor is a number an enum", T + "U8 f() { return 3; }"),
    ("an enum is not made from nothing", T + "U8 u;"),
    ("an enum with an object is not copied", T + "Pay f(const Pay& p) { return p; }"),
    ("an option is not the value in it", T + "int64_t f(std::optional<int64_t> x) { return opt_i64(0, x); }"),
    ("an option of one type is not an option of another", T + "uint32_t f(rs_std::Option<uint8_t>& x) { return opt_mut(x, 1); }"),
    ("an immutable option is not changed", T + "uint32_t f(const rs_std::Option<uint32_t>& x) { return opt_mut(x, 1); }"),
    ("a tuple has its number of elements", T + "void f() { t_nested({{1, 2, 3}, 3}); }"),
    ("an enum of the same variants is another enum", T + "uint8_t f() { return u8_of(Plain::MakeA()); }"),
]

N = "using namespace niches; "
ACCEPT_N = [
    ("an option of a bool is made from an optional bool", N + "void f(F& x, std::optional<bool> o) { x.b = std::move(o); rs_std::Option<bool> b = std::optional<bool>(true); x.b = true; }"),
    ("enums with niches are trivially copied", N + "template <typename T> constexpr bool t = std::is_trivially_copyable_v<T>; static_assert(t<Flag> && t<Late> && t<Two> && t<Tu> && t<Ti> && t<Ci> && t<Neg> && t<Big> && t<Deep> && t<Gaps> && t<Sized2> && t<Ref> && !t<Own>);"),
    ("unit variants are made in constant expressions", N + "constexpr Flag a = Flag::MakeC(); constexpr Late b = Late::MakeB(); constexpr Two c = Two::MakeC(); constexpr Tu d = Tu::MakeC(); constexpr Ti e = Ti::MakeB(); constexpr Deep g = Deep::MakeA();"),
    ("the tags have the type of the repr", N + "static_assert(std::is_same_v<std::underlying_type_t<Ci::Tag>, int16_t> && std::is_same_v<std::underlying_type_t<Neg::Tag>, int32_t> && std::is_same_v<std::underlying_type_t<Sized2::Tag>, uint32_t> && static_cast<int>(Neg::Tag::A) == -1 && static_cast<int>(Neg::Tag::B) == 70000 && static_cast<int>(Neg::Tag::C) == 70001);"),
]
REJECT_N = [
    ("an option of a bool is not whether an optional has a value", N + "void f(F& x, std::optional<bool>& o) { x.b = o; }"),
    ("nor whether another optional has one", N + "void f(F& x, std::optional<int> o) { x.b = std::move(o); }"),
    ("nor whether another option has one", N + "rs_std::Option<bool> f(F& x) { return x.i; }"),
    ("nor whether a pointer is null", N + "void f(F& x, int* p) { x.b = std::unique_ptr<int>(p); }"),
    ("a payload of an opaque enum is not accessible", N + "auto f(Flag& x) { return x.A; }"),
]


def run_check(tier, work):
    gen = Generator()
    at = lambda f: os.path.join(HERE, "gen", f)
    return (run_generated(gen, "enums", at("enums.rs"), [at("enums.cc")], os.path.join(work, "gen"), unwind=12, accept=ACCEPT, reject=REJECT)
            + run_generated(gen, "niches", at("niches.rs"), [at("niches.cc")], os.path.join(work, "gen"), unwind=12, accept=ACCEPT_N, reject=REJECT_N))
