import os
from vp.gen import Generator, run_generated
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "translation_validation"
CHECKER_CMD = "bin/check C21 (cargo build -p cc_bindings_from_rs; the generator on checks/C21/gen; rustc and clang++ to LLVM IR | llvm-link | opt | ir2c | cbmc)"
FUNCTIONS = ["the C++ functions and Rust thunks that cc_bindings_from_rs generates for the functions and methods of a crate: arguments and results by value, reference, pointer, slice, string, tuple, array, Option and Result, of every primitive type, of copyable types and of types with a destructor",
             "generate_function.rs, generate_function_thunk.rs, format_type.rs (through what they generate)",
             "crubit::{Slot,TransmuteAbi,OptionAbi,MemSwap,Decode,Encode}, rs_std::{SliceRef,StrRef,char_,Result}, CheckNoMutableAliasing as called from the generated code; bridge_rust as called from the thunks"]
TRUSTED = ["rustc nightly and clang 18 (front ends and LLVM IR), llvm-link and LLVM's sroa", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["the generator is validated on the crates in checks/C21/gen: each generated function is verified for all arguments, the generator itself is not verified for all crates",
               "lib/gen/rs_std.h declares the names of the standard library's traits (its bindings are not part of the repository)",
               "slices and strings of up to 4 elements; no unwinding (panic=abort)"]
T = "using namespace fns; template <auto f, typename T> constexpr bool is = std::is_same_v<std::remove_pointer_t<decltype(f)>, T>; "
ACCEPT = [
    ("scalars have their types", T + "static_assert(is<&i8s, int8_t(int8_t, int8_t)> && is<&i16s, int16_t(int16_t, int16_t)> && is<&i32s, int32_t(int32_t, int32_t)> && is<&i64s, int64_t(int64_t, int64_t)> && is<&isizes, intptr_t(intptr_t, intptr_t)>); "
     "static_assert(is<&u8s, uint8_t(uint8_t, uint8_t)> && is<&u16s, uint16_t(uint16_t, uint16_t)> && is<&u32s, uint32_t(uint32_t, uint32_t)> && is<&u64s, uint64_t(uint64_t, uint64_t)> && is<&usizes, uintptr_t(uintptr_t, uintptr_t)>); "
     "static_assert(is<&bools, bool(bool, bool)> && is<&chars, rs_std::char_(rs_std::char_, rs_std::char_)> && is<&second_f32, float(float, float)> && is<&second_f64, double(double, double)> && is<&c_types, int64_t(int32_t, unsigned char, int64_t)>);"),
    ("pointers keep their constness", T + "static_assert(is<&second_ptr, uint64_t*(const uint8_t*, uint64_t*)> && is<&const_ptr, const uint64_t*(const uint64_t*)>);"),
    ("slices keep their constness", T + "uint16_t f(rs_std::SliceRef<const uint16_t> a, rs_std::SliceRef<uint16_t> b) { set_last(b, 1); return first(a); } static_assert(std::is_same_v<decltype(same_slice(std::declval<rs_std::SliceRef<const uint16_t>>())), rs_std::SliceRef<const uint16_t>>);"),
    ("methods with &self are const", T + "uint64_t f(const Pod& p, const D& d) { return p.sum() + d.value() + d.pick(&d, true).value(); }"),
    ("methods that consume a Copy type leave it", T + "uint64_t f(Pod p) { return p.take(1) + p.take(2); }"),
    ("associated functions are static", T + "uint8_t f() { return Pod::fixed(); }"),
    ("items are in the namespaces of their modules", T + "uint8_t f() { return m::inner(1) + m::deep::inner(2) + m::deep::s(3).inner(); }"),
    ("a reference returned from a shared reference is const", T + "static_assert(std::is_same_v<decltype(std::declval<const D&>().pick(std::declval<const D*>(), true)), const D&>);"),
]
REJECT = [
    ("a const value is not given as a mutable reference", T + "void f(const uint32_t& x) { set(x, 1); }"),
    ("a const slice is not given as a mutable slice", T + "void f(rs_std::SliceRef<const uint16_t> a) { set_last(a, 1); }"),
    ("a const pointer is not given as a mutable pointer", T + "void f(const uint64_t* p) { second_ptr(nullptr, p); }"),
    ("a const object is not changed", T + "void f(const D& d) { d.change(1); }"),
    ("a const plain object is not changed", T + "void f(const Pod& p) { p.set(1); }"),
    ("an object is given away only as a temporary", T + "uint32_t f(D& d) { return d.into_value(); }"),
    ("an object is not given away by a reference to it", T + "uint32_t f(const D& d) { return eat(d); }"),
    ("a result read through a shared reference is not changed", T + "void f(const uint32_t& x) { same(&x) = 1; }"),
    ("a private function is not bound", T + "void f() { called(1); }"),
    ("a private method is not bound", T + "void f() { D::made(1); }"),
    ("a safe function does not take a pointer for a reference", T + "void f(uint32_t* p) { readers(p, p); }"),
]


def run_check(tier, work):
    gen = Generator()
    at = lambda f: os.path.join(HERE, "gen", f)
    return run_generated(gen, "fns", at("fns.rs"), [at("fns.cc")], os.path.join(work, "gen"), accept=ACCEPT, reject=REJECT)
