#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of checks the harness has."""
import json, re
ROOT = "/verif"
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
src = open(f"{ROOT}/harness/src/props/mod.rs").read()
have = dict(re.findall(r'id: "(C\d+)".*?level: "(\w+)"', src, re.S))
TECH = {}
exec(open(f"{ROOT}/tools/techniques.py").read(), TECH)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, note = TECH["T"][i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level=have[i], level_note=note))
    else:
        na.append(dict(property=i, reason="no check yet"))
json.dump(dict(version=1, setup_cmd="bash check.sh build", checks=checks, not_applicable=na,
               notes="No hooks: everything is reached through the public API of gvas."),
          open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
