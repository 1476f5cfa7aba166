import os
from vp.cpp import run_cpp, run_unbounded
from vp.util import read
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C02 (clang++ -O0 | opt sroa,inline | ir2c with loop contracts | cbmc --sat-solver cadical)"
FUNCTIONS = ["rs_std::StrRef::FromUtf8", "rs_std::StrRef::size/len/empty/to_string_view/data",
             "rs_std::internal::IsUtf8 (both loops under an inferred invariant)", "rs_std::internal::IsUtf8Char", "rs_std::internal::IsAscii"]
TRUSTED = ["clang 18 front end and -O0/sroa/inline passes", "lib/vp/ir2c.py (LLVM IR to C)", "CBMC 6.11.0 with CaDiCaL",
           "lib/cpp/prelude.c (models of operator new/delete)", "libstdc++ 13 string_view/optional are verified as compiled, not assumed"]
ASSUMPTIONS = ["strings are at most 2^46 bytes long (48-bit address space)",
               "the suffix-validity ghost predicate is uninterpreted; instances of its recursive definition are assumed only where it is unfolded (checks/C02/cpp/ghost.h)",
               "a pointer into the string is havocked within the string's object (loop invariant in-region)"]


def run_check(tier, work):
    bounds = {"from_utf8_short": "all byte strings of length <= 7",
              "from_utf8_window": "length <= 20: an arbitrary window of 4 bytes anywhere in a run of one arbitrary ASCII byte",
              "from_utf8_multibyte_run": "length <= 14: an arbitrary window of 4 bytes anywhere in a run of two-byte characters"}
    out = run_cpp(os.path.join(HERE, "cpp/utf8.cc"), work, unwind=24, bounds=bounds, timeout=400)
    if not any(r.failures for r in out):
        out += run_unbounded(os.path.join(HERE, "cpp/utf8_unbounded.cc"), work, read(os.path.join(HERE, "cpp/ghost.h")),
                             timeout=240 if tier == "quick" else 1800)
    return out
