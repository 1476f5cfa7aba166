import itertools, os, re
from vp.kani import run_kani
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "model_checking"
CHECKER_CMD = "bin/check C14 (cargo kani on checks/C14/rust)"
FUNCTIONS = ["cc_bindings_from_rs::toposort::toposort"]
TRUSTED = ["Kani 0.68.0 / CBMC"]
ASSUMPTIONS = ["bounded: graphs of three nodes of every shape (all of them in the thorough tier) and some of four (and with repeated edges and self-loops), each with three or four preferences (ties included)",
               "std's HashMap, Vec and BinaryHeap are replaced by small containers with the same contract (lib/rust/stdshim); hash tables are iterated in two opposite orders"]


def run_check(tier, work):
    t = os.path.join(HERE, "rust")
    src = open(os.path.join(t, "src/lib.rs")).read()
    bounded = {n: "one graph of %s nodes, several preferences" % k for n, k in re.findall(r"(b_\w+): (\d) (?:true|false) ", src)}
    for n in re.findall(r"fn (b_\w+)\(\)", src):
        bounded.setdefault(n, "one graph")
    only = None
    if tier == "quick":  # one graph of three nodes of each shape; the thorough tier takes all
        seen, only = set(), []
        for n in bounded:
            if n.startswith("b_g3_"):
                es = [] if n == "b_g3_empty" else [(int(e[0]), int(e[1])) for e in n[5:].split("_")]
                shape = min(tuple(sorted((p[a], p[b]) for a, b in es)) for p in itertools.permutations(range(3)))
                if shape in seen:
                    continue
                seen.add(shape)
            only.append("harness::" + n)
    return run_kani(t, os.path.join(work, "rust"), included=True, bounded=bounded, only=only)
