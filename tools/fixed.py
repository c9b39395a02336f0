#!/usr/bin/env python3
"""fixed.py PROP KEY COMMIT TEXT: record a repaired defect."""
import json, sys
p = "/verif/known_findings.json"; d = json.load(open(p))
L = d[[k for k in d if isinstance(d[k], list)][0]]
prop, key, commit, what = sys.argv[1:5]
L.append({"property": prop, "key": key, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (prop, commit, what)})
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
