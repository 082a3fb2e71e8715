#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in properties.py."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        r = {k: p[k] for k in ("id", "title", "statement")}
        r["quantifier"] = {"over": p["over"], "text": p["text"]}
        r["why_tests_cant"] = p["why"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
             "observe_at": p["observe"], "hook_needed": None}
        if "state" in p:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        r["anchors"] = a
        f.write(json.dumps(r) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "verif", "enable": "no hooks were needed: the checks use the public interface of the library and its command", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
    "notes": "All the checks are property-based tests: generated documents, configurations, file trees and faults against an explicit oracle. See DESIGN.md. Known findings and repairs are in KNOWN_FINDINGS.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
