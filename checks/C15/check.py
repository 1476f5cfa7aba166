import os, re
from vp.kani import run_kani
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C15 (cargo kani on checks/C15/rust)"
FUNCTIONS = ["memoized::query_group! (inputs, memoized, cycle-breaking and provided functions, new)", "memoized::memoized!", "memoized::internal::MemoizationTable::{default,internal_memoized_call}", "memoized::internal::db_index"]
TRUSTED = ["Kani 0.68.0 / CBMC"]
ASSUMPTIONS = ["std's HashMap, Vec and thread_local! are replaced by small ones with the same contract (lib/rust/stdshim)",
               "the memoized functions are representative pure functions of arbitrary values; histories of up to four calls",
               "cycles: given dependency graphs of three queries with arbitrary values (bounded); 300 databases (bounded)"]


def run_check(tier, work):
    t = os.path.join(HERE, "rust")
    bounded = {n: "one dependency graph of three queries" for n in re.findall(r"(b_\w+): \[", open(os.path.join(t, "src/lib.rs")).read())}
    bounded["b_many_databases"] = "300 databases"
    return run_kani(t, os.path.join(work, "rust"), included=True, bounded=bounded)
