import os
from vp.cpp import run_cpp, run_static
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C03 (clang++ -O0 | opt | ir2c | cbmc)"
FUNCTIONS = ["rs_std::char_::from_u32", "rs_std::char_::char_ (default and consteval literal constructors)", "rs_std::char_::MAX",
             "rs_std::char_::len_utf8", "rs_std::char_::encode_utf8 (char.cc)", "operator==, operator<=> on char_", "AbslStringify(char_)",
             "CRUBIT_CHECK / CheckFail"]
TRUSTED = ["clang 18 front end", "lib/vp/ir2c.py (LLVM IR to C)", "CBMC 6.11.0", "lib/cpp/prelude.c: abort ends the run, fprintf has no other effect"]
ASSUMPTIONS = ["the buffers under test are of capacity 0..6 (encode_utf8 touches at most four bytes, so larger capacities take the same paths)",
               "the consteval literal constructors are decided by the compiler on boundary literals, not for every literal"]
PRE = '#include "support/rs_std/char.h"'


def run_check(tier, work):
    def lit(v, t="char32_t"):
        return "constexpr rs_std::char_ c = static_cast<%s>(%s);" % (t, v)
    acc = [("literal %s is a character" % v, lit(v)) for v in ("0", "0x7f", "0xd7ff", "0xe000", "0xffff", "0x10000", "0x10ffff")]
    acc += [("char16_t literal is a character", lit("0xd7ff", "char16_t")), ("char literal is a character", lit("0x7f", "char"))]
    rej = [("literal %s is no character" % v, lit(v)) for v in ("0xd800", "0xdbff", "0xdc00", "0xdfff", "0x110000", "0x7fffffff", "0xffffffff")]
    rej += [("char16_t surrogate is no character", lit(v, "char16_t")) for v in ("0xd800", "0xdfff")]
    rej += [("an int converts to no character", "constexpr rs_std::char_ c = 5;"),
            ("a uint32_t converts to no character", "constexpr rs_std::char_ c = uint32_t{5};"),
            ("a runtime value converts to no character implicitly", "rs_std::char_ f(char32_t x) { return x; }")]
    return (run_cpp(os.path.join(HERE, "cpp/char.cc"), work, unwind=12)
            + run_static("literals", work, PRE, acc, rej))
