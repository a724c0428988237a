#!/usr/bin/env python3
"""Write DESIGN.md from design.in.md, known_findings.json and the metadata of the planted bugs (not used by any check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/lib/design.in.md").read()
k = json.load(open(V + "/known_findings.json"))
fixes = "\n".join("* %s `%s`: %s" % (e["property"], e["commit"], e["what"]) for e in sorted(k, key=lambda e: e["property"]) if e["status"] == "fixed")
notes = json.load(open(V + "/lib/seednotes.json"))
rows = ["| planted bug | property | manifests with | caught |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    rows.append("| `%s` | %s | %s | %s |" % (s, m["property"], m["needs"], notes.get(s, "at once")))
t = t.replace("@@FIXES@@", fixes).replace("@@SEEDS@@", "\n".join(rows)).replace("@@EXTRA@@\n", "")
open(V + "/DESIGN.md", "w").write(t)
