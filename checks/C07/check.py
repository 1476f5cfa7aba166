import os
from vp.cpp import run_cpp, run_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C07 (clang++ -O0 | opt | ir2c | cbmc; clang++ -fsyntax-only for compile-time contracts)"
FUNCTIONS = ["rs_std::usize, rs_std::isize: constructors, conversions, comparison, arithmetic", "rs_std::unit_t comparison", "CRUBIT_SIZEOF", "CRUBIT_OFFSET_OF"]
TRUSTED = ["clang 18 front end and its constant evaluator", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["signed overflow of isize is outside the contract, as for the built-in integers", "layout macros: representative types, on the host's ABI (64 bit)"]


def run_check(tier, work):
    out = run_cpp(os.path.join(HERE, "cpp/int.cc"), work, unwind=4)
    pre = """#include <cstdint>
#include <concepts>
#include "support/rs_std/int.h"
#include "support/rs_std/unit.h"
#include "support/internal/sizeof.h"
#include "support/internal/offsetof.h"
using namespace rs_std;
struct Base { int64_t a; char c; };
struct Tail : Base { char d; int16_t e; };
template <typename A, typename B> struct Two { A a; B b; };
struct alignas(16) Big { char x; };
struct NonStd { private: int p; public: char q; virtual ~NonStd(); int64_t r; };
"""
    acc = [("unit has one value", "static_assert(unit == unit && !(unit != unit) && is_unit_t_v<unit_t> && is_unit_t_v<const unit_t&> && !is_unit_t_v<int>);"),
           ("usize and isize are usable at compile time",
            "constexpr usize f(usize a, usize b) { a += b; a -= usize(1); return a + b - a; }\nstatic_assert(f(5, 7) == usize(7) && isize(-3) < isize(2) && isize(-3) - isize(4) == isize(-7) && usize(~std::uintptr_t{0}) + usize(1) == usize(0));"),
           ("usize and isize have the layout of a word",
            "static_assert(sizeof(usize) == sizeof(void*) && alignof(usize) == alignof(void*) && sizeof(isize) == sizeof(void*) && alignof(isize) == alignof(void*));"),
           ("usize and isize are ordered totally", "static_assert(std::same_as<decltype(usize() <=> usize()), std::strong_ordering> && std::same_as<decltype(isize() <=> isize()), std::strong_ordering>);"),
           ("usize and isize are types of their own", "static_assert(!std::same_as<usize, std::uintptr_t> && !std::same_as<isize, std::intptr_t> && !std::same_as<usize, isize>);"),
           ("sizes are rounded up to the alignment",
            "#define OK(...) static_assert(CRUBIT_SIZEOF(__VA_ARGS__) == (sizeof(__VA_ARGS__) + alignof(__VA_ARGS__) - 1) / alignof(__VA_ARGS__) * alignof(__VA_ARGS__) && CRUBIT_SIZEOF(__VA_ARGS__) % alignof(__VA_ARGS__) == 0 && CRUBIT_SIZEOF(__VA_ARGS__) >= sizeof(__VA_ARGS__) && CRUBIT_SIZEOF(__VA_ARGS__) < sizeof(__VA_ARGS__) + alignof(__VA_ARGS__));\nOK(char) OK(int64_t) OK(Base) OK(Tail) OK(Two<char, int64_t>) OK(Two<int64_t, char>) OK(Big) OK(NonStd) OK(char[3]) OK(Big[2])\nstatic_assert(CRUBIT_SIZEOF(Two<int64_t, char>) == 16 && 1 + CRUBIT_SIZEOF(char) * 3 == 4);"),
           ("offsets are those of the members",
            "using T = Two<char, Two<int16_t, int64_t>>;\nstatic_assert(CRUBIT_OFFSET_OF(a, Two<char, int64_t>) == 0 && CRUBIT_OFFSET_OF(b, Two<char, int64_t>) == 8 && CRUBIT_OFFSET_OF(b, Two<char, int16_t>) == 2 && CRUBIT_OFFSET_OF(b, T) == 8 && CRUBIT_OFFSET_OF(c, Base) == 8);")]
    return out + run_static("layout", work, pre, acc)
