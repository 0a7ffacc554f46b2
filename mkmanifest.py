#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 lib/build.py default",
     "hooks": {"guard": "LIBUNICODE_VERIF", "enable": "no hooks are needed: harnesses use the public and test-visible interfaces of /repo's sources", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --quick" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c.get("level", "model_checking"),
                            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
sys.path.insert(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
