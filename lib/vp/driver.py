"""Entry point shared by all checks: runs one property's check, writes the
evidence file, prints VIOLATION / KNOWN-FINDING lines, sets the exit status."""
import importlib.util, json, os, sys, time, traceback
from .util import *


def load(pid):
    path = os.path.join(VERIF, "checks", pid, "check.py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(pid)
    undecided = []
    results = []
    try:
        results = mod.run_check(tier, os.path.join(VERIF, ".work", pid))
    except Undecided as e:
        undecided.append(str(e))
    except Exception:
        undecided.append(traceback.format_exc())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
    violations = []
    known_hit = []
    for r in results:
        if r.undecided:
            undecided.append("%s: %s" % (r.name, r.undecided))
        for f in r.failures:
            k = next((k for k in known if k["obligation"] == f["obligation"]), None)
            if k:
                known_hit.append((k, f))
            else:
                violations.append((r, f))
    proved = [r for r in results if not r.bounded]
    bnd = [r for r in results if r.bounded]
    cov = {
        "obligations": sum(r.obligations for r in proved),
        "discharged": sum(r.discharged for r in proved),
        "checker_cmd": getattr(mod, "CHECKER_CMD", "bin/check %s" % pid),
        "trusted_base": list(mod.TRUSTED),
        "functions_under_contract": list(mod.FUNCTIONS),
        "harnesses_proved": len(proved),
        "vacuity_guards_reached": sum(r.vacuity for r in results),
        "solver_s": round(sum(r.solver_s for r in results), 2),
        "groups": [r.as_json() for r in results],
    }
    if bnd:
        cov["bounded_stand_ins"] = {
            "note": "not counted in obligations/discharged above",
            "harnesses": len(bnd),
            "obligations": sum(r.obligations for r in bnd),
            "discharged": sum(r.discharged for r in bnd),
            "bounds": {r.name: r.bounded for r in bnd},
        }
    if undecided:
        cov["undecided"] = undecided
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage())
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": mod.LEVEL, "coverage": cov, "assumptions": list(mod.ASSUMPTIONS),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, f in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        path = os.path.join(VERIF, "replays", "%s.txt" % pid)
        confirmed = [(r, f) for r, f in violations if any(g.get("replayed") for g in r.failures)]
        with open(path, "w", errors="replace") as fh:
            fh.write("property %s\n" % pid)
            for r, f in confirmed + [v for v in violations if v not in confirmed]:
                line = "FAILED OBLIGATION %s\n   at %s   [%s]\n" % (f["obligation"], f["location"], r.engine)
                fh.write(line)
                print(line, end="")
            for r in dict.fromkeys([r for r, _ in confirmed] + [r for r, _ in violations]):
                for g in r.failures:
                    for key in ("counterexample", "replay_output", "verifier_output"):
                        if g.get(key):
                            fh.write("\n==== %s: %s ====\n%s\n" % (r.name, key, g[key]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if confirmed else " no-failing-input-found"))
    n = cov["obligations"] + cov.get("bounded_stand_ins", {}).get("obligations", 0)
    d = cov["discharged"] + cov.get("bounded_stand_ins", {}).get("discharged", 0)
    print("%s: %d harnesses, %d/%d obligations discharged, %.1f s" % (pid, len(results), d, n, time.time() - t0))
    if violations:
        return 1
    if undecided:
        print("UNDECIDED: " + "\n".join(undecided))
        return 2
    return 0
