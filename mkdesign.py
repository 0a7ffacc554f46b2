#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md."""
import glob, json, os, re
rows = ["| seeded bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s%s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " (also %s)" % ", ".join(m["also"]) if m.get("also") else "", m["needs"].replace("|", "/")))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s)
open(p, "w").write(s)
