import os
from vp.cpp import run_cpp
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C08 (clang++ -O0 | opt | ir2c | cbmc)"
FUNCTIONS = ["rs_std::OptionBase<Derived, T>: every constructor, assignment, conversion from and to std::optional, has_value, operator*, operator->, reset",
             "rs_std::ResultBase<Derived, T, E>: every constructor, assignment, has_value, value, error, err, operator*, operator->, operator bool, Reset",
             "rs_std::unexpected<E>", "crubit::MoveAssignOrDestroyAndConstruct"]
TRUSTED = ["clang 18 front end", "lib/vp/ir2c.py", "CBMC 6.11.0", "libstdc++ std::optional is verified along with the code that uses it, as compiled"]
ASSUMPTIONS = ["the derived classes have the two shapes that the generator emits: a separate tag, or a niche in the payload",
               "payload types are representative instances: move-only, copyable, relocatable, unassignable, both, scalar, unit",
               "payload operations do not throw (the functions are noexcept)"]


def run_check(tier, work):
    return run_cpp(os.path.join(HERE, "cpp/option.cc"), work, unwind=12)
