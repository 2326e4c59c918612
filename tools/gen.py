#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as fp:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        rec = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            },
        }
        fp.write(json.dumps(rec) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE or not os.path.exists(
            os.path.join(root, "checks", p["id"] + ".py")):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "runtime monitoring: " + p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    })
claimed = {c["property"] for c in checks}
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
na += [{"property": p["id"], "reason": "check not built yet"} for p in PROPS
       if p["id"] not in claimed and p["id"] not in NOT_APPLICABLE]
man = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {
        "guard": "SPINS_VERIF_MONITOR (unused)",
        "enable": "no hooks are needed in /repo: the monitors observe the "
                  "public API and instrumented nodes, solvers and loggers "
                  "that the harness passes in",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(root, "MANIFEST.json"), "w") as fp:
    json.dump(man, fp, indent=1)
    fp.write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "n/a")
