"""Runs Kani on a harness crate that is rendered, on every run, from a template
in /verif/checks/<ID>/ and compiles the real sources of /repo.

Conventions inside harness crates
  * a harness is `#[kani::proof]` or `#[kani::proof_for_contract]`;
  * a harness whose function name starts with `b_` is a bounded stand-in,
    everything else is a full-domain proof;
  * `kani::cover!(c, "MUST: ...")` is a vacuity guard: it has to be satisfiable;
  * `kani::cover!(c, "NEVER: ...")` has to be unsatisfiable (used to state
    "control never returns here", which a panic makes true);
  * in a harness whose name ends in `_must_panic`, failing assertions (panics)
    are the expected outcome; memory errors and NEVER covers are not.
"""
import json, os, re, shutil, time
from .util import *

IGNORED_CATEGORIES = {"cover", "code_coverage", "reachability_check"}
# A failing check of one of these kinds means that the tool, not the code, gave up.
TOOL_LIMIT = {"unwind", "unsupported_construct", "recursion", "missing_function", "unsupported_struct",
              "finite_types", "sanity_check", "missing_definition", "assertion_reach_check"}


def render(template, work, stage):
    """Copies the template (replacing @REPO@), and stages sources of /repo.

    stage: {dest: (path in /repo, text appended after the verbatim copy,
            [(literal, replacement)] mechanical substitutions)}"""
    for root, _dirs, files in os.walk(template, followlinks=True):
        for f in files:
            src = os.path.join(root, f)
            rel = os.path.relpath(src, template)
            write(os.path.join(work, rel), publish(read(src).replace("@REPO@", REPO).replace("@VERIF@", VERIF)))
    for dest, (src, append, subst) in (stage or {}).items():
        text = read(os.path.join(REPO, src))
        for a, b in subst:
            text = re.sub(a, b, text) if not isinstance(a, str) else text.replace(a, b)
        write(os.path.join(work, dest), text + "\n" + publish(append.replace("@REPO@", REPO).replace("@VERIF@", VERIF)))


def publish(text):
    """Harness functions become pub(crate), so that playback tests can name them."""
    return re.sub(r"(#\[kani::proof[^\n]*\n(?:\s*#\[[^\n]*\n)*\s*)fn ", r"\1pub(crate) fn ", text)


def run_kani(template, work, stage=None, extra=(), bounded=None, timeout=800, harness_timeout="400s",
             jobs=CPUS, package=None, only=None, env_extra=None, included=False):
    """included: the harness crate contains /repo's files, compiled against stand-ins of std;
    that it does not compile says nothing about them."""
    fresh_dir(work)
    render(template, work, stage)
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.pop("CARGO_TARGET_DIR", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(env_extra or {})
    out_json = os.path.join(work, "kani.json")
    cmd = ["cargo", "kani", "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "stubbing",
           "--no-assertion-reach-checks", "--output-format=terse", "--export-json", out_json, "-j", str(jobs),
           "--harness-timeout", harness_timeout, *extra]
    if only:
        for h in only:
            cmd += ["--harness", h]
    rc, out = run(cmd, cwd=work, timeout=timeout, env=env)
    write(os.path.join(work, "kani.log"), out)
    if rc is None:
        raise Undecided("kani timed out after %ss\n%s" % (timeout, out[-1500:]))
    if not os.path.exists(out_json):
        pkg = re.search(r'^name\s*=\s*"([^"]+)"', read(os.path.join(work, "Cargo.toml")), re.M)
        if pkg and not stage and not included and "internal compiler error" not in out and re.search(r"could not compile `%s`" % re.escape(pkg.group(1)), out):
            # The crates of /repo compile, but no longer accept the types of their contracts.
            res = Result(pkg.group(1) + "::well_formed", "rustc (Kani's)")
            res.obligations = 1
            res.failures.append({"obligation": "%s: the functions under contract accept the argument and payload types of their contracts" % res.name,
                                 "location": template, "verifier_output": out[-6000:]})
            return [res]
        raise Undecided("kani produced no result (does the code still compile?)\n" + out[-6000:])
    data = json.load(open(out_json))
    names = [h["pretty_name"] for h in data["harness_metadata"]]
    solver = {c["harness_id"]: (c.get("cbmc_stats") or {}) for c in data.get("cbmc", [])}
    results = []
    seen = set()
    for r in data["verification_results"]["results"]:
        name = r["harness_id"]
        seen.add(name)
        res = Result(name, "Kani 0.68.0 / CBMC 6.11.0 (%s)" % "cadical")
        fn = name.split("::")[-1]
        res.bounded = (bounded or {}).get(fn) if fn.startswith("b_") else None
        if fn.startswith("b_") and not res.bounded:
            res.bounded = "bound stated in the harness"
        st = solver.get(name, {})
        res.solver_s = (st.get("runtime_decision_procedure_s") or 0) + (st.get("runtime_symex_s") or 0)
        must_panic = fn.endswith("_must_panic")
        limits, fails, must_missing, never_hit = [], [], [], []
        undetermined = panics = 0
        for c in r["checks"]:
            desc, status, cat = c["description"].strip('"'), c["status"], c.get("category", "")
            loc = "%s:%s in %s" % (c["location"].get("file"), c["location"].get("line"), c.get("function"))
            if cat == "cover":
                if desc.startswith("MUST:"):
                    if status == "Satisfied":
                        res.vacuity += 1
                    else:
                        must_missing.append(desc)
                elif desc.startswith("NEVER:"):
                    res.obligations += 1
                    if status in ("Unsatisfiable", "Unreachable"):
                        res.discharged += 1
                    elif status == "Satisfied":
                        never_hit.append((desc, loc))
                continue
            if cat in IGNORED_CATEGORIES:
                continue
            if must_panic and cat == "assertion" and status == "Failure":
                panics += 1
                continue
            res.obligations += 1
            if status in ("Success", "Unreachable"):
                res.discharged += 1
            elif status == "Failure":
                if cat in TOOL_LIMIT or "is not currently supported by Kani" in desc or "unwinding assertion" in desc or desc.startswith("BOUND:"):
                    limits.append("%s (%s)" % (desc, loc))
                else:
                    fails.append((desc, loc))
            else:
                undetermined += 1
        if r["status"] not in ("Success", "Failure") or not r["checks"]:
            res.undecided = "harness gave no verdict: status %s (time-out or memory)" % r["status"]
        elif fails or never_hit:
            for desc, loc in fails + never_hit:
                res.failures.append({"obligation": "%s: %s" % (name, desc), "location": loc})
        elif must_panic and not panics and not limits:
            res.failures.append({"obligation": "%s: the call panics" % name, "location": template})
        elif limits:
            res.undecided = "tool limit: " + "; ".join(limits[:4])
        elif undetermined:
            res.undecided = "%d obligations undetermined" % undetermined
        elif must_missing:
            # The precondition of a contract is no longer reachable: vacuous.
            res.undecided = "vacuity guard not reachable: " + "; ".join(must_missing[:4])
        elif res.obligations == 0:
            res.undecided = "no obligations generated"
        results.append(res)
    for n in names:
        if n not in seen and (not only or any(o in n for o in only)):
            res = Result(n, "Kani 0.68.0")
            res.undecided = "no result reported"
            results.append(res)
    if not results:
        raise Undecided("kani found no harness\n" + out[-3000:])
    t0 = time.time()
    for res in sorted((r for r in results if r.failures), key=lambda r: r.solver_s):
        if time.time() - t0 > 240:
            break
        replay(res, work, env, extra)
        if res.failures[0].get("replayed"):
            break
    return results


def replay(res, work, env, extra):
    """Asks Kani for concrete inputs for a failing harness and runs the real
    code natively on them. Harness functions are pub(crate), so the generated
    unit tests live in a module appended to the crate root."""
    name = res.name
    fn = name.split("::")[-1]
    rc, out = run(["cargo", "kani", "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "stubbing",
                   "-Z", "concrete-playback", "--harness", name, "--exact",
                   "--concrete-playback=print", *extra], cwd=work, timeout=200, env=env)
    blocks = re.split(r"\n(?=Check \d+: )", out)
    res.failures[0]["verifier_output"] = "\n".join(
        [b for b in blocks if "Status: FAILURE" in b or "Status: SATISFIED" in b][:12]) + "\n" + out[-2500:]
    keep = [t for t in re.findall(r"```\n(.*?)```", out, re.S) if not re.search(r'Check for `cover`: "MUST', t)]
    if not keep:
        return
    res.failures[0]["counterexample"] = "\n".join(keep)
    body = []
    for k in keep:
        k = re.sub(r"///.*\n", "", k)
        k = k.replace("(concrete_vals, %s)" % fn, "(concrete_vals, crate::%s)" % name)
        body.append(k.strip())
    root = os.path.join(work, "src/lib.rs")
    orig = read(root)
    write(root, orig + "\n#[cfg(test)]\nmod verif_playback {\nuse std::vec::Vec;\nuse std::vec;\n" + "\n".join(body) + "\n}\n")
    try:
        rc, out = run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", "kani_concrete_playback_" + fn],
                      cwd=work, timeout=200, env=env)
    finally:
        write(root, orig)
    res.failures[0]["replay_output"] = out[-6000:]
    if rc is not None and re.search(r"test result: FAILED|panicked at|SIGSEGV|SIGABRT|SIGBUS|signal:", out):
        res.failures[0]["replayed"] = True
