import os
from vp.cpp import run_cpp
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C06 (clang++ -O0 | opt | ir2c | cbmc)"
FUNCTIONS = ["crubit::Slot<T>: constructors, Get, AssumeInitAndTakeValue, destructor", "crubit::Slot<std::array<T, N>>: the same",
             "crubit::MoveAssignOrDestroyAndConstruct", "rs::Movable<T>: every constructor, copy and move assignment, TakeFromSlot, destructor, operator*, operator->, valueless_after_move, operator bool", "crubit::MemSwap"]
TRUSTED = ["clang 18 front end", "lib/vp/ir2c.py", "CBMC 6.11.0"]
ASSUMPTIONS = ["payload types are representative instances: move-only, copyable, relocatable, unassignable, unassignable and relocatable, immovable, scalar",
               "payload operations do not throw"]


def run_check(tier, work):
    return run_cpp(os.path.join(HERE, "cpp/movable.cc"), work, unwind=130)
