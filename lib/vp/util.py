"""Shared helpers for the check drivers."""
import os, re, shutil, subprocess, time, json, signal

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")
CPUS = os.cpu_count() or 4


class Undecided(Exception):
    """The check could not be carried out (tool error, lost anchor, time out).

    Never an alarm: the check ends with exit status 2."""


def known_obligations():
    """Failed obligations that known_findings.jsonl lists as open findings."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    lines = open(path).read().splitlines() if os.path.exists(path) else []
    known = [json.loads(l) for l in lines if l.strip().startswith("{")]
    return {k["obligation"] for k in known if k.get("status") == "open"}


def run(cmd, cwd=None, timeout=None, env=None, stdin=None):
    """Runs cmd, returns (rc, output). rc is None on time-out; the whole
    process group is ended then."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""


def fresh_dir(path):
    assert path.startswith(VERIF + "/.work/"), path
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def read(path):
    try:
        with open(path, encoding="utf-8", errors="surrogateescape") as f:
            return f.read()
    except FileNotFoundError:
        raise Undecided("lost anchor: %s does not exist" % path)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(text)


class Result:
    """What one obligation group (harness) produced."""

    def __init__(self, name, engine):
        self.name = name
        self.engine = engine
        self.obligations = 0
        self.discharged = 0
        self.vacuity = 0           # reachability guards that were satisfied
        self.bounded = None        # text stating the bound, or None
        self.solver_s = 0.0
        self.failures = []         # dicts: obligation, location, output, replay
        self.undecided = None      # reason text
        self.note = ""

    def as_json(self):
        d = {"harness": self.name, "backend": self.engine, "obligations": self.obligations,
             "discharged": self.discharged, "vacuity_guards_reached": self.vacuity,
             "solver_s": round(self.solver_s, 3)}
        if self.bounded:
            d["bounded"] = self.bounded
        if self.failures:
            d["failed"] = [f["obligation"] for f in self.failures]
        if self.undecided:
            d["undecided"] = self.undecided
        if self.note:
            d["note"] = self.note
        return d
