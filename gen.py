#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.d/ and checks.d/."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NOT_APPLICABLE = []


def P(pid, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    PROPS.append({"id": pid, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})


for f in sorted(glob.glob(os.path.join(HERE, "props.d", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"P": P})
from checks_config import CHECKS  # noqa: E402

ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
missing = set(ids) - set(CHECKS)
assert not missing, missing
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda x: x["id"]):
        f.write(json.dumps(p) + "\n")
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    checks.append({"property": pid,
                   "quick_cmd": "python3 check.py %s quick" % pid,
                   "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": "runtime monitoring: " + c["technique"],
                   "level": "exploration", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --self-test",
     "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "Every check rebuilds its harness and the library sources it needs from /repo's "
              "working tree; no hooks in /repo are needed.  check.py --replay <file> re-runs a "
              "recorded violation."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(checks), "checks")
