import os
from vp.kani import run_kani
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C16 (cargo kani on checks/C16/rust)"
FUNCTIONS = ["interner::Interner::{new,intern,intern_slice,intern_str}", "interner::Interned::{inner,deref,clone,eq,cmp,partial_cmp,hash}"]
TRUSTED = ["Kani 0.68.0 / CBMC"]
ASSUMPTIONS = ["std's HashSet and bumpalo's arena are replaced by small ones with the same contract (lib/rust/stdshim, lib/rust/bumpalo)",
               "histories of three values, one interned again; slices and strings of up to two elements (bounded)"]


def run_check(tier, work):
    return run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust"), included=True, bounded={"b_slices": "two slices of up to 2 elements", "b_strings": "two strings of up to 2 bytes"})
