#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of built checks."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
CLAIMED = {}
exec((V / "tools" / "claims.py").read_text())
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[],
         notes="Every check runs the code of /repo's working tree (Python imported from it, C++ compiled from it into /verif/build). "
               "Known findings: /verif/known-findings.txt. Design: /verif/DESIGN.md.")
for i in ids:
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                                evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "No check built yet.")))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
