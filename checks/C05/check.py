import os
from vp.cpp import run_cpp, run_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C05 (clang++ -O0 | opt | ir2c | cbmc)"
FUNCTIONS = ["crubit::internal::HasMutableAliasing<M,N>", "crubit::internal::CheckNoMutableAliasing<M,N>", "crubit::internal::Overlaps",
             "crubit::internal::HasMutableAliasingSpans, CheckNoMutableAliasingSpans, SortPtrDatas (bounded)",
             "crubit::internal::PtrLike<T*>, PtrLike<T&>, PtrLike<SliceRef<T>>, PtrLike<StrRef>", "AsPtrData(s), AsMutPtrData(s)"]
TRUSTED = ["clang 18 front end", "lib/vp/ir2c.py", "CBMC 6.11.0", "std::sort sorts (its contract replaces it on the path for more than three arguments)"]
ASSUMPTIONS = ["an argument is empty (null) or a non-null run of bytes that does not wrap around the address space",
               "up to 3 mutable and 3 const arguments: all addresses and lengths (proof); more arguments: regions on a 16x16 grid at two scales (bounded)"]


def run_check(tier, work):
    b = "regions on a 16x16 grid (cells of 1 or 2^58 bytes), the given argument counts"
    slow = ("mut2_const4", "mut4_const4")
    bounded = ("mut4_const0", "mut4_const0_high", "mut4_const1", "mut1_const4", "mut1_const4_high", "mut5_const0") + (slow if tier == "thorough" else ())
    out = run_cpp(os.path.join(HERE, "cpp/alias.cc"), work, unwind=24, timeout=700 if tier == "quick" else 3000,
                  bounds={k: b for k in bounded}, flags=("-DVP_THOROUGH",) if tier == "thorough" else ())
    pre = '#include "support/internal/check_no_mutable_aliasing.h"\nusing namespace crubit::internal;'
    rej = [("a const reference is no mutable argument", "auto f(const int& x) { return AsMutPtrDatas<const int&>(x); }"),
           ("a mutable reference is no const argument", "auto f(int& x) { return AsPtrDatas<int&>(x); }"),
           ("a value is no argument", "auto f(int x) { return AsPtrDatas<int>(x); }")]
    acc = [("references and pointers are arguments", "auto f(int& x, const int* y) { return HasMutableAliasing(AsMutPtrDatas<int&>(x), AsPtrDatas<const int*>(y)); }")]
    return out + run_static("arguments", work, pre, acc, rej)
