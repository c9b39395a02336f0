#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and vf/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "vf"), os.path.join(V, "tools")]
from props import PROPS
from specs import SPECS
for p in PROPS:
    for f in p["files"]:
        if not os.path.exists("/repo/" + f):
            sys.exit("no such anchor: " + p["id"] + " " + f)
    assert len(p["title"]) <= 80, p["id"]
with open(V + "/properties.jsonl", "w") as o:
    for p in PROPS:
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": [p["observe"]], "hook_needed": "none"}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in SPECS:
        s = SPECS[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "runtime monitoring under ASan+UBSan: " + s["technique"],
            "level": "exploration", "level_note": s["note"]})
    else:
        na.append({"property": p["id"], "reason": "no check has been built for it (yet); the family does apply"})
json.dump({
    "version": 1, "setup_cmd": "true",
    "hooks": {"guard": "", "enable": "no hooks: every monitor observes the public interface of the real code, rebuilt with sanitizers from /repo", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "python3 check.py <ID> quick|thorough; VERIF_SEED selects the workload stream. See DESIGN.md."},
    open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
