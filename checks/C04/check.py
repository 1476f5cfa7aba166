import os
from vp.cpp import run_cpp, run_unbounded, run_static
from vp.util import read
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C04 (clang++ -O0 | opt | ir2c | cbmc)"
FUNCTIONS = ["rs_std::SliceRef<T>: all constructors, operator span, data, size, to_span, copy/move/assignment", "rs_std::internal::EqualImpl, operator==/!= on SliceRef",
             "rs_std::StrRef: FromUtf8Unchecked, literal constructors, conversions, data/size/len/empty/to_string_view, operator==, operator<=>, AbslStringify",
             "crubit::internal::PtrLike<SliceRef<T>>, PtrLike<StrRef>"]
TRUSTED = ["clang 18 front end", "lib/vp/ir2c.py", "CBMC 6.11.0", "memcmp meets the C standard (checks/C04/cpp/ghost.h states the contract used)"]
ASSUMPTIONS = ["element types are representative instances (byte, word, floating, struct, over-aligned)",
               "equality of slices of non-memcmp-comparable structs is bounded (length <= 4)"]


def run_check(tier, work):
    b = "both lengths <= 4"
    bounds = {"equality_u8": b, "equality_i32": b, "equality_struct": b, "equality_with_container": "lengths 2 and <= 3",
              "str_comparison": b, "str_comparison_with_c_string": b}
    out = run_cpp(os.path.join(HERE, "cpp/slice.cc"), work, unwind=24, bounds=bounds)
    pre = '#include <algorithm>\n#include <array>\n#include <vector>\n#include <string>\n#include "support/rs_std/slice_ref.h"\n#include "support/rs_std/str_ref.h"\nusing namespace rs_std;'
    acc = [("const view of a vector is implicit", "SliceRef<const int> f(const std::vector<int>& v) { return v; }"),
           ("mutable view of a span is implicit", "SliceRef<int> f(std::span<int> v) { return v; }"),
           ("mutable view of a vector is explicit", "auto f(std::vector<int>& v) { return SliceRef<int>(v); }"),
           ("bytes of a string are implicit", "SliceRef<const unsigned char> f(const std::string& v) { return v; }"),
           ("a mutable view is a const view", "SliceRef<const int> f(SliceRef<int> v) { return v; }"),
           ("a valid literal is a StrRef", 'StrRef f() { return "h\\xc3\\xa9"; }')]
    rej = [("mutable view of a vector is not implicit", "SliceRef<int> f(std::vector<int>& v) { return v; }"),
           ("a const view is no mutable view", "SliceRef<int> f(SliceRef<const int> v) { return v; }"),
           ("bytes of a string are not mutable", "SliceRef<unsigned char> f(std::string_view v) { return v; }"),
           ("an invalid literal is no StrRef", 'StrRef f() { return "\\xff"; }'),
           ("a truncated literal is no StrRef", 'StrRef f() { return "abc\\xc3"; }'),
           ("an encoded surrogate is no StrRef", 'StrRef f() { return "\\xed\\xa0\\x80"; }'),
           ("a runtime string is no StrRef", "StrRef f(std::string_view v) { return v; }")]
    out += run_static("conversions", work, pre, acc, rej)
    if not any(r.failures for r in out):
        out += run_unbounded(os.path.join(HERE, "cpp/slice_unbounded.cc"), work, read(os.path.join(HERE, "cpp/ghost.h")), timeout=200, loops=False)
    return out
