#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the checks present."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
from properties_table import PROPS, NOT_APPLICABLE

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = p["anchors"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["for_all"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": a["files"], "mechanism": [{"name": n, "where": w} for n, w in a["mechanism"]],
                                        "observe_at": a["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    path = os.path.join(V, "checks", p["id"], "check.py")
    if not os.path.exists(path):
        continue
    spec = importlib.util.spec_from_file_location(p["id"], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s --tier quick" % p["id"], "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": m.LEVEL, "level_note": p["note"]})
claimed = {c["property"] for c in checks}
na = [{"property": i, "reason": r} for i, r in NOT_APPLICABLE.items()]
for p in PROPS:
    assert p["id"] in claimed or p["id"] in NOT_APPLICABLE, p["id"]
    assert len(p["title"]) <= 80, p["id"]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks are needed: the checks reach the code through its public interface and through copies they stage from /repo's working tree", "source_commits": []}},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
