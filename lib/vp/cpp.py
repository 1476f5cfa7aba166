"""C++ checks: clang -O0 -> LLVM IR of the real headers -> C (ir2c) -> CBMC."""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
from .util import *
from . import ir2c

CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
CFLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-fno-rtti",
          "-gline-tables-only", "-fno-threadsafe-statics", "-fno-stack-protector", "-w"]
CBMC_FLAGS = ["--no-standard-checks", "--pointer-check", "--bounds-check", "--no-malloc-may-fail",
              "--unwinding-assertions", "--object-bits", "10", "--slice-formula", "--drop-unused-functions"]
LIB = os.path.join(VERIF, "lib", "cpp")


def models(extra=""):
    return set(re.findall(r"^\w[\w ]*?\bx_(\w+)\(", read(os.path.join(LIB, "prelude.c")) + "\n" + extra, re.M))


def string_of(em, v):
    if v[0] == 'glob' and v[1] in em.m.globals:
        _t, init = em.m.global_type_init(v[1])
        if init and init[0] == 'cstr':
            return re.sub(r'\\[0-9A-F]{2}', '', init[1][2:-1])
    return "check"


class Emitter(ir2c.Emitter):
    """Adds the harness primitives to the translator."""

    def emit_call(self, ins, p, blk, op):
        m = re.search(r'@vp_(check|must|never)\(', ins['text'])
        if m:
            while p.next()[1] != '(':
                pass
            args = []
            while not p.accept(')'):
                at = p.type()
                p.skip_attrs()
                args.append((at, p.value(at)))
                p.accept(',')
            msg = string_of(self, args[-1][1]).replace('"', "'")
            k = m.group(1)
            if k == 'check':
                return '__CPROVER_assert(%s, "%s");' % (self.val(*args[0]), msg)
            if k == 'must':
                return '__CPROVER_assert(0, "MUST: %s");' % msg
            return '__CPROVER_assert(0, "NEVER: %s");' % msg
        return super().emit_call(ins, p, blk, op)


class IllFormed(Exception):
    """The harness no longer type-checks against headers that do compile."""


def check_headers(src, work, flags):
    """The headers by themselves have to compile; if not, nothing is decided."""
    inc = os.path.join(work, "headers_only.cc")
    write(inc, "\n".join(re.findall(r"^#\s*include.*", read(src), re.M)) + "\n")
    rc, out = run([CLANG, *CFLAGS, "-I", REPO, "-I", LIB, "-I", os.path.dirname(src), *flags, "-fsyntax-only", inc], timeout=200)
    if rc != 0:
        raise Undecided("the headers do not compile:\n" + out[-4000:])


def translate(src, work, flags=(), opt_passes="sroa"):
    base = os.path.join(work, os.path.splitext(os.path.basename(src))[0])
    rc, out = run([CLANG, *CFLAGS, "-I", REPO, "-I", LIB, *flags, "-S", "-emit-llvm", src, "-o", base + ".ll"], timeout=200)
    if rc != 0:
        check_headers(src, work, flags)
        raise IllFormed(out[-4000:])
    rc, out = run(["opt-18", "-S", "-passes=" + opt_passes, base + ".ll", "-o", base + ".opt.ll"], timeout=200)
    if rc != 0:
        raise Undecided("opt failed:\n" + out[-3000:])
    try:
        mod = ir2c.Module(read(base + ".opt.ll"))
        em = Emitter(mod)
        roots = [n for n in mod.funcs if re.fullmatch(r"@hb?_\w+", n)]
        if not roots:
            raise Undecided("no harness in " + src)
        c = em.translate(roots, models())
    except ir2c.IRError as e:
        raise Undecided("IR construct not supported by the translator: %s" % e)
    c += "\n#line 1 \"prelude.c\"\n" + read(os.path.join(LIB, "prelude.c"))
    write(base + ".c", c)
    rc, out = run(["goto-cc", "-o", base + ".gb", base + ".c"], timeout=200)
    if rc != 0:
        raise Undecided("goto-cc rejects the translation:\n" + out[-4000:])
    return base, [r[1:] for r in roots], em


def verify_one(base, name, unwind, timeout, extra):
    res = Result(os.path.basename(base) + "::" + name, "CBMC 6.11.0")
    cmd = ["cbmc", base + ".gb", "--function", "f_" + name, "--json-ui", "--unwind", str(unwind), *CBMC_FLAGS, *extra]
    t0 = time.time()
    rc, out = run(cmd, timeout=timeout)
    res.solver_s = time.time() - t0
    res.cmd = cmd
    if rc is None:
        res.undecided = "cbmc timed out after %ss" % timeout
        return res
    try:
        data = json.loads(out)
    except ValueError:
        res.undecided = "cbmc gave no result: " + out[-1500:]
        return res
    props = next((d["result"] for d in data if "result" in d), None)
    if props is None:
        res.undecided = "cbmc gave no result: " + " ".join(
            d.get("messageText", "") for d in data if d.get("messageType") in ("ERROR", "WARNING"))[-1500:]
        return res
    limits, missing = [], []
    for p in props:
        d, st = p["description"], p["status"]
        loc = p.get("sourceLocation", {})
        where = "%s:%s" % (loc.get("file", "?"), loc.get("line", "?"))
        if d.startswith("MUST: "):
            # a property of another harness is reported as SUCCESS here
            if loc.get("function") == "f_" + name or st == "FAILURE":
                if st == "FAILURE":
                    res.vacuity += 1
                else:
                    missing.append(d)
            continue
        res.obligations += 1
        if st == "SUCCESS":
            res.discharged += 1
        elif st == "FAILURE":
            if "unwinding assertion" in d or d.startswith("UNMODELLED") or "recursion" in d or "no body" in d:
                limits.append("%s (%s)" % (d, where))
            else:
                res.failures.append({"obligation": "%s: %s" % (res.name, d), "location": where, "prop": p["property"]})
        else:
            limits.append("%s: %s" % (st, d))
    if not res.failures:
        if limits:
            res.undecided = "tool limit: " + "; ".join(limits[:4])
        elif missing:
            res.undecided = "vacuity guard not reachable: " + "; ".join(missing[:4])
        elif not res.obligations:
            res.undecided = "no obligations"
    return res


def trace_values(out):
    vals = []
    data = json.loads(out)
    for d in data:
        for p in d.get("result", []):
            for st in p.get("trace", []):
                if st.get("stepType") == "input":
                    for v in st.get("values", []):
                        b = v.get("binary")
                        vals.append(int(b, 2) if b else int(re.sub(r"\D", "", v.get("data", "0")) or 0))
            if p.get("trace"):
                return vals
    return vals


def replay(res, base, name, src, work, flags, libs=()):
    known = known_obligations()
    f = next(f for f in res.failures if f["obligation"] not in known)
    cmd = [c for c in res.cmd if c != "--slice-formula"] + ["--trace", "--property", f["prop"]]
    rc, out = run(cmd, timeout=300)
    try:
        vals = trace_values(out)
    except ValueError:
        return
    f["counterexample"] = "nondeterministic inputs in call order: " + " ".join(map(str, vals))
    exe, inp = base + "." + name + ".exe", base + "." + name + ".in"
    write(inp, "\n".join(map(str, vals)))
    rc, out = run([CLANG, "-std=c++20", "-O0", "-g", "-w", "-I", REPO, "-I", LIB, *flags, "-DVP_HARNESS=h" + name[1:],
                   "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
                   src, os.path.join(LIB, "native.cc"), *libs, "-o", exe], timeout=200)
    if rc != 0:
        f["replay_output"] = "native replay does not build:\n" + out[-2000:]
        return
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    rc, out = run([exe, inp], timeout=60, env=env)
    f["replay_output"] = "exit status %s\n%s" % (rc, out[-4000:])
    if rc is not None and rc != 0:
        f["replayed"] = True


def run_unbounded(src, work, ghost, flags=(), timeout=120, loops=True):
    """Loop contracts: every loop of the (fully inlined) harnesses hu_* is cut at
    its header with an invariant drawn from the template in ir2c.candidates.
    Candidates that are not inductive are dropped (Houdini) until the rest is;
    the rest is then proved together with all other obligations, for inputs of
    any length. If that does not go through, the group proves nothing and says
    so in its note (the bounded stand-ins still decide); it never raises an
    alarm by itself."""
    os.makedirs(work, exist_ok=True)
    base = os.path.join(work, os.path.splitext(os.path.basename(src))[0])
    results = []

    def give_up(name, why):
        r = Result(os.path.basename(base) + "::" + name, "CBMC 6.11.0 + inferred loop invariants")
        r.note = "NOT PROVED for unbounded inputs on this tree: " + why[-600:]
        return r
    rc, out = run([CLANG, *CFLAGS, "-I", REPO, "-I", LIB, *flags, "-S", "-emit-llvm", src, "-o", base + ".ll"], timeout=200)
    if rc != 0:
        return [give_up("compile", out[-600:])]
    write(base + ".ll", re.sub(r"\bnoinline\b", "", read(base + ".ll")))
    rc, out = run(["opt-18", "-S", "-passes=function(sroa),cgscc(inline),function(sroa)", "-inline-threshold=1000000",
                   base + ".ll", "-o", base + ".opt.ll"], timeout=200)
    if rc != 0:
        return [give_up("opt", out)]
    mod = ir2c.Module(read(base + ".opt.ll"))
    roots = [n for n in mod.funcs if re.fullmatch(r"@hu_\w+", n)]

    def one(root):
        name = root[1:]
        b = base + "." + name
        enabled, t0, rounds = {}, time.time(), 0
        while True:
            rounds += 1
            em = Emitter(mod)
            em.cut_roots, em.enabled, em.ghost = {root}, enabled, ghost
            try:
                c = em.translate([root], models(ghost))
            except ir2c.IRError as e:
                return give_up(name, str(e))
            write(b + ".c", c + "\n#line 1 \"prelude.c\"\n" + read(os.path.join(LIB, "prelude.c")))
            rc, out = run(["goto-cc", "-o", b + ".gb", b + ".c"], timeout=100)
            if rc != 0:
                return give_up(name, out)
            rc, out = run(["cbmc", b + ".gb", "--function", "f_" + name, "--json-ui", "--unwind", "6", *CBMC_FLAGS, "--object-bits", "8", "--sat-solver", "cadical"], timeout=timeout)
            if rc is None or rounds > 40:
                return give_up(name, "time out")
            try:
                props = next(d["result"] for d in json.loads(out) if "result" in d)
            except (ValueError, StopIteration):
                return give_up(name, out)
            dropped = False
            if os.environ.get("VP_DEBUG"): print(rounds, [(p["description"], p["status"]) for p in props if p["description"].startswith("INV") and p["status"] != "SUCCESS"], time.time()-t0)
            for p in props:
                m = re.match(r"INV (L\d+C\d+) ", p["description"])
                if m and p["status"] == "FAILURE" and enabled.get(m.group(1), True):
                    enabled[m.group(1)] = False
                    dropped = True
            if not dropped:
                break
        r = Result(os.path.basename(base) + "::" + name, "CBMC 6.11.0 + inferred loop invariants")
        r.solver_s = time.time() - t0
        bad, measures, inv = [], {}, []
        for p in props:
            d, st = p["description"], p["status"]
            m = re.match(r"MEASURE L(\d+)M", d)
            if m:
                measures.setdefault(m.group(1), []).append(st == "SUCCESS")
                continue
            if d.startswith("MUST: "):
                if st == "FAILURE":
                    r.vacuity += 1
                elif p.get("sourceLocation", {}).get("function") == "f_" + name:
                    bad.append("vacuous: " + d)
                continue
            if d.startswith("INV "):
                inv.append(d)
            r.obligations += 1
            if st == "SUCCESS":
                r.discharged += 1
            else:
                bad.append(d)
        for k, v in measures.items():
            r.obligations += 1
            if any(v):
                r.discharged += 1
            else:
                bad.append("loop %s: no decreasing measure found" % k)
        if bad or (loops and em.loops_cut == 0):
            return give_up(name, "; ".join(bad[:5]) or "no loop found")
        r.note = "%d loops under contract, %d Houdini rounds%s%s" % (
            em.loops_cut, rounds, ", invariants: " if inv else "", "; ".join(sorted({re.sub(r"^INV (\S+) \w+ ", r"\1 ", i) for i in inv})))
        return r
    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        return list(ex.map(one, roots))


def run_cpp(src, work, flags=(), unwind=8, unwinds=None, bounds=None, timeout=600, extra=(), extras=None, only=None):
    """src: harness .cc; bounds: {harness name without hb_: text}."""
    os.makedirs(work, exist_ok=True)
    try:
        base, roots, em = translate(src, work, flags)
    except IllFormed as e:
        # The first obligation of every contract: the functions can be called
        # as their contracts say, for every payload type they are stated for.
        res = Result(os.path.basename(src) + "::well_formed", "clang 18 type checker")
        res.obligations = 1
        res.failures.append({"obligation": "%s: the functions under contract accept the argument and payload types of their contracts" % res.name,
                             "location": src, "verifier_output": str(e)})
        return [res]
    if only:
        roots = [r for r in roots if r in only]

    def job(r):
        key = re.sub(r"^hb?_", "", r)
        res = verify_one(base, r, (unwinds or {}).get(key, unwind), timeout, [*extra, *((extras or {}).get(key, []))])
        if r.startswith("hb_"):
            res.bounded = (bounds or {}).get(key, "bound stated in the harness")
        return r, res
    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        got = list(ex.map(job, roots))
    t0 = time.time()
    known = known_obligations()
    for r, res in got:
        # A known finding is not replayed; the first new violation that replays is enough.
        if any(f["obligation"] not in known for f in res.failures) and time.time() - t0 < 240:
            replay(res, base, r, src, work, list(flags))
            if any(f.get("replayed") for f in res.failures):
                break
    return [res for _, res in got]


def run_static(name, work, prelude, accept=(), reject=(), flags=()):
    """Compile-time contracts (consteval, requires-clauses, static_assert), decided
    by the compiler: each accept snippet must compile, each reject snippet must not
    (the prelude alone must)."""
    os.makedirs(work, exist_ok=True)
    res = Result(name, "clang 18 constant evaluation and overload resolution")
    t0 = time.time()

    def one(job):
        i, (label, code, want) = job
        src = os.path.join(work, "%s_%d.cc" % (name, i))
        write(src, prelude + "\n" + code + "\n")
        rc, out = run([CLANG, "-std=c++20", "-fsyntax-only", "-w", "-I", REPO, "-I", LIB, *flags, src], timeout=120)
        return label, code, want, rc == 0, out
    jobs = [("the header compiles", "", True)] + [(l, c, True) for l, c in accept] + [(l, c, False) for l, c in reject]
    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        got = list(ex.map(one, enumerate(jobs)))
    if not got[0][3]:
        res.undecided = "the headers do not compile:\n" + got[0][4][-2000:]
        return [res]
    for label, code, want, ok, out in got[1:]:
        res.obligations += 1
        if ok == want:
            res.discharged += 1
        else:
            res.failures.append({"obligation": "%s: %s" % (name, label), "location": "compile-time contract", "replayed": True,
                                 "counterexample": code, "replay_output": "expected the code above to be %s by the compiler\n%s" % (
                                     "accepted" if want else "rejected", out[-2000:])})
    res.solver_s = time.time() - t0
    return [res]
