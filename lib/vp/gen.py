"""Checks of generated bindings: the generator is built from /repo's tree and run on
a crate; the C++ and Rust code it generates, the crate itself and the support headers
are compiled to LLVM IR, linked, transcribed to C (ir2c) and verified with CBMC
against contracts stated on the C++ API of the crate."""
import hashlib, os, re, time
from concurrent.futures import ThreadPoolExecutor
from .util import *
from . import cpp, ir2c

STD = os.path.join(VERIF, "lib", "gen")


def toolchain():
    p = "/opt/vp/env.sh"
    m = re.search(r"RUSTUP_TOOLCHAIN=(\S+)", read(p)) if os.path.exists(p) else None
    return m.group(1) if m else "nightly-2026-08-20"


def environment(**more):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "LD_LIBRARY"))}
    env.update({"RUSTUP_TOOLCHAIN": toolchain(), "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_PROFILE_DEV_DEBUG": "0",
                "CARGO_TERM_COLOR": "never"}, **more)
    return env


class Generator:
    """The generator of /repo's current tree."""

    def __init__(self):
        target = os.path.join(VERIF, ".work", "generator-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
        os.makedirs(target, exist_ok=True)
        rc, out = run(["cargo", "build", "--offline", "--locked", "-p", "cc_bindings_from_rs"], cwd=REPO, timeout=600, env=environment(CARGO_TARGET_DIR=target))
        if rc != 0:
            raise Undecided("the generator does not build:\n" + out[-3000:])
        self.exe = os.path.join(target, "debug", "cc_bindings_from_rs")
        rc, out = run(["rustc", "--print", "sysroot"], env=environment())
        self.sysroot = out.strip().split("\n")[-1]
        self.llvm = os.path.join(self.sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")

    def rustc(self, *args, timeout=200):
        return run(["rustc", "--edition=2024", "-Cpanic=abort", "-Cdebug-assertions=off", "-Coverflow-checks=off", "-Copt-level=0", "-Cdebuginfo=0",
                    "-Zmir-opt-level=2", "-Zinline-mir=yes", "-Ccodegen-units=1", "--cap-lints=allow", *args], timeout=timeout, env=environment())

    def bindings(self, name, rlib, h, rs, namespaces=()):
        args = ["--sysroot", self.sysroot, "--source-crate-name", name, "--extern", "%s=%s" % (name, rlib), "--h-out", h, "--rs-out", rs,
                "--crubit-support-path-format", '"support/{header}"']
        for n in ("std", "core", "alloc"):
            args += ["--crate-header=%s=rs_std.h" % n, "--crate-namespace=%s=rs::%s" % (n, n)]
        for n in ("std", "core", "alloc", name):
            args += ["--crate-feature=%s=supported" % n, "--crate-feature=%s=experimental" % n]
        return run([self.exe, *args], timeout=120, env=environment(LD_LIBRARY_PATH=os.path.join(self.sysroot, "lib")))


def failed(what, name, detail):
    res = Result(name + "::" + what[0], "cc_bindings_from_rs, rustc, clang")
    res.obligations = 1
    res.failures.append({"obligation": "%s: %s" % (res.name, what[1]), "location": name, "replayed": True,
                         "counterexample": "the crate %s.rs" % name, "replay_output": detail[-4000:]})
    return [res]


def run_generated(gen, name, src, harnesses, work, flags=(), unwind=8, unwinds=None, bounds=None, timeout=600, accept=(), reject=()):
    """src: the crate; harnesses: C++ files that include "<name>.h"."""
    work = os.path.join(work, name)
    os.makedirs(work, exist_ok=True)
    at = lambda f: os.path.join(work, f)
    t0 = time.time()
    jobs = []
    bridge = at("libbridge_rust.rlib")
    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        a = ex.submit(gen.rustc, "--crate-type=rlib", "--crate-name=bridge_rust", "-Zalways-encode-mir", os.path.join(REPO, "support/crubit_bridge_rust/src/bridge.rs"), "-o", bridge)
        b = ex.submit(gen.rustc, "--crate-type=rlib", "--crate-name=" + name, src, "--emit=link=%s,llvm-ir=%s" % (at("lib%s.rlib" % name), at(name + ".ll")))
    for f, what in ((a, "bridge_rust"), (b, name + ".rs")):
        if f.result()[0] != 0:
            raise Undecided("%s does not compile:\n%s" % (what, f.result()[1][-2000:]))
    h, rs = at(name + ".h"), at(name + "_cc_api.rs")
    rc, out = gen.bindings(name, at("lib%s.rlib" % name), h, rs)
    if rc != 0:
        return failed(("generated", "the generator makes bindings for the crate"), name, out)
    rust = [rs, "--crate-name=%s_cc_api" % name, "--extern=%s=%s" % (name, at("lib%s.rlib" % name)), "--extern=bridge_rust=" + bridge]
    flags = [*flags, "-I", work, "-I", STD]
    write(at("header.cc"), '#include "%s.h"\n' % name)
    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        a = ex.submit(gen.rustc, *rust, "--crate-type=rlib", "--emit=llvm-ir=" + at("cc_api.ll"))
        b = ex.submit(run, [cpp.CLANG, "-std=c++20", "-fsyntax-only", "-w", "-I", REPO, *flags, at("header.cc")], timeout=120)
        cs = [ex.submit(run, [cpp.CLANG, *cpp.CFLAGS, "-I", REPO, "-I", cpp.LIB, *flags, "-S", "-emit-llvm", c, "-o", at(os.path.basename(c) + ".ll")], timeout=200) for c in harnesses]
    if a.result()[0] != 0:
        return failed(("rust_compiles", "the generated Rust code compiles"), name, a.result()[1])
    if b.result()[0] != 0:
        return failed(("cpp_compiles", "the generated header compiles"), name, b.result()[1])
    res = Result(name + "::compiles", "cc_bindings_from_rs, rustc, clang")
    res.obligations = res.discharged = 3
    res.solver_s = time.time() - t0
    results = [res]
    if accept or reject:
        results += cpp.run_static(name + "_rules", at("static"), '#include "%s.h"\n' % name, accept, reject, flags=flags)
    for c, f in zip(harnesses, cs):
        if f.result()[0] != 0:
            res = Result(os.path.basename(c) + "::well_formed", "clang 18 type checker")
            res.obligations = 1
            res.failures.append({"obligation": "%s: the bindings have the types of their contracts" % res.name, "location": c, "replayed": True,
                                 "counterexample": c, "replay_output": f.result()[1][-4000:]})
            results.append(res)
            continue
        results += verify(gen, name, c, work, flags, unwind, unwinds or {}, bounds or {}, timeout, rust)
    return results


def verify(gen, name, c, work, flags, unwind, unwinds, bounds, timeout, rust):
    base = os.path.join(work, os.path.splitext(os.path.basename(c))[0])
    rc, out = run([os.path.join(gen.llvm, "llvm-link"), "-S", os.path.join(work, os.path.basename(c) + ".ll"), os.path.join(work, name + ".ll"), os.path.join(work, "cc_api.ll"), "-o", base + ".all.ll"], timeout=100)
    if rc != 0:
        raise Undecided("llvm-link: " + out[-2000:])
    rc, out = run([os.path.join(gen.llvm, "opt"), "-S", "-passes=sroa", base + ".all.ll", "-o", base + ".opt.ll"], timeout=100)
    if rc != 0:
        raise Undecided("opt: " + out[-2000:])
    try:
        mod = ir2c.Module(read(base + ".opt.ll"))
        em = cpp.Emitter(mod)
        em.rust = True
        roots = [n for n in mod.funcs if re.fullmatch(r"@hb?_\w+", n)]
        if not roots:
            raise Undecided("no harness in " + c)
        text = em.translate(roots, cpp.models())
    except ir2c.IRError as e:
        raise Undecided("IR construct not supported by the translator: %s" % e)
    write(base + ".c", text + "\n#line 1 \"prelude.c\"\n" + read(os.path.join(cpp.LIB, "prelude.c")))
    rc, out = run(["goto-cc", "-o", base + ".gb", base + ".c"], timeout=200)
    if rc != 0:
        raise Undecided("goto-cc rejects the translation:\n" + out[-4000:])

    def job(r):
        key = re.sub(r"^@hb?_", "", r)
        res = cpp.verify_one(base, r[1:], unwinds.get(key, unwind), timeout, [])
        if r.startswith("@hb_"):
            res.bounded = bounds.get(key, "bound stated in the harness")
        return r[1:], res
    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        got = list(ex.map(job, roots))
    known, t0, lib = known_obligations(), time.time(), None
    for r, res in got:
        if any(f["obligation"] not in known for f in res.failures) and time.time() - t0 < 200:
            if lib is None:
                lib = os.path.join(work, "libbindings.a")
                rc, out = gen.rustc(*rust, "--crate-type=staticlib", "-o", lib)
                if rc != 0:
                    break
            cpp.replay(res, base, r, c, work, list(flags), libs=[lib, "-lpthread", "-ldl", "-lm"])
            if any(f.get("replayed") for f in res.failures):
                break
    return [res for _, res in got]
