#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. Only checks that exist (a register with that ID in harness/) are claimed.
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {}
for f in glob.glob(os.path.join(V, "harness", "*.go")):
    for m in re.finditer(r'ID: *"(C\d\d)", *Level: *"(\w+)"', open(f).read()):
        have[m.group(1)] = m.group(2)
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t[0], "level": have[i], "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is driven through its public interfaces (elliptic.Curve, crypto/rand.Reader, io.Reader/io.Writer); C18 and C19 add in-package tests by overlay. Repairs of genuine defects are listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
