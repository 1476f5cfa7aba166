"""Compile-time contracts of Rust code: what the type checker must accept and
what it must reject. The crates under contract are built from /repo's current
tree; each snippet is then type- and borrow-checked against them."""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
from .util import *
from .kani import render

TOOLCHAIN = "nightly-2026-08-20"   # the one /repo is built with


def run_rust_static(name, template, work, crates, prelude, accept, reject, edition="2024"):
    """template: a crate whose dependencies are the crates under contract;
    accept/reject: [(label, items)]; a reject snippet must fail with a type,
    borrow or trait error (E....), not with a syntax error."""
    fresh = fresh_dir(work)
    render(template, fresh, None)
    write(os.path.join(fresh, "src/lib.rs"), "")
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(fresh, "t"))
    t0 = time.time()
    rc, out = run(["cargo", "build", "--offline", "-q", "--message-format=json"], cwd=fresh, timeout=300, env=env)
    if rc != 0:
        raise Undecided("the crates do not compile:\n" + out[-3000:])
    ext, dirs = [], [os.path.join(fresh, "t/debug/deps")]
    for line in out.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith((".rmeta", ".rlib", ".so")) and os.path.dirname(f) not in dirs:
                        dirs.append(os.path.dirname(f))
            if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") in crates:
                f = sorted((f for f in m["filenames"] if f.endswith((".rmeta", ".rlib", ".so"))), key=lambda f: not f.endswith(".rmeta"))[0]
                ext += ["--extern", "%s=%s" % (m["target"]["name"].replace("-", "_"), f)]
    res = Result(name, "rustc %s (type and borrow checker)" % TOOLCHAIN)

    def one(job):
        i, (label, code, want) = job
        src = os.path.join(fresh, "s%d.rs" % i)
        write(src, prelude + "\n" + code + "\n")
        rc, out = run(["rustc", "--edition", edition, "--crate-type=lib", "--crate-name", "s%d" % i, "--cap-lints=allow", "--emit=metadata",
                       "--out-dir", os.path.join(fresh, "o"), *[x for d in dirs for x in ("-L", "dependency=" + d)], *ext, src], timeout=120, env=env)
        return label, code, want, rc, out
    jobs = [("the prelude compiles", "", True)] + [(l, c, True) for l, c in accept] + [(l, c, False) for l, c in reject]
    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        got = list(ex.map(one, enumerate(jobs)))
    if "error[E0463]" in got[0][4]:
        raise Undecided("the crates under contract are not found:\n" + got[0][4][-2000:])
    if got[0][3] != 0:
        res.obligations = 1
        res.failures.append({"obligation": "%s: the definitions that the compile-time contracts are stated over are accepted" % name,
                             "location": "compile-time contract", "verifier_output": got[0][4][-4000:]})
        return [res]
    for label, code, want, rc, out in got[1:]:
        res.obligations += 1
        ok = rc == 0
        if not want and not ok and not re.search(r"error\[E\d+\]|error: lifetime may not live long enough|error: implementation of .* is not general enough|evaluation .* failed|cannot construct .* with struct literal", out):
            res.undecided = "%s: rejected for an unexpected reason:\n%s" % (label, out[-1500:])
        if ok == want:
            res.discharged += 1
        else:
            res.failures.append({"obligation": "%s: %s" % (name, label), "location": "compile-time contract", "replayed": True,
                                 "counterexample": prelude + "\n" + code,
                                 "replay_output": "expected the code above to be %s by the compiler\n%s" % ("accepted" if want else "rejected", out[-2000:])})
    res.solver_s = time.time() - t0
    return [res]
