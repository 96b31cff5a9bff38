#!/usr/bin/env python3
# Generates MANIFEST.json from the checks registered in harness/*.go.
import json, re, glob, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + "/properties.jsonl") if l.strip()]
have = {}
for f in glob.glob(root + "/harness/*.go"):
    for m in re.finditer(r'register\(&Prop\{ID:\s*"(C\d+)",\s*Level:\s*"(\w+)"', open(f).read()):
        have[m.group(1)] = m.group(2)
notes = json.load(open(here + "/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in notes:
        n = notes[i]
        checks.append({"property": i,
            "quick_cmd": f"bash run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": n[0], "level": have[i], "level_note": n[1]})
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check builds its explorer and btrfscue from /repo's working tree (run.sh); no hooks in /repo are needed."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
