#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(d + "/properties.jsonl")]
src = ""
for sub in ("props", "propsrace"):
    for f in sorted(os.listdir(d + "/harness/" + sub)):
        src += open(d + "/harness/" + sub + "/" + f).read()
built = set(re.findall(r'mc\.Prop\{ID: "(P\d\d)"', src))
NA = {}
exec(open(d + "/tools/notes.py").read())
checks, na = [], []
for i in ids:
    if i in built:
        checks.append(dict(property=i, quick_cmd=f"bash /verif/check.sh {i} quick", thorough_cmd=f"bash /verif/check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH.get(i, TECH["*"]), level="model_checking", level_note=NOTE.get(i, NOTE["*"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na, notes="See DESIGN.md.")
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
open(d + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
