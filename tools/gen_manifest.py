#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json
TECH = {}
CLAIMED = {}  # property -> (crate, level_note)
T = {"catalog-sim": "deterministic simulation with fault injection: seeded schedules, crashes, power failures and storage faults over the real catalog code and the real SQLite on a simulated operating system; checked by invariants during the run and linearizability against a reference model"}
for i in range(1, 11):
    CLAIMED[f"C{i:02d}"] = ("catalog-sim", "sampled schedules and fault sequences; SQLite catalog only (PostgreSQL is not available here)")
exec(open("/verif/tools/manifest_extra.py").read()) if __import__("os").path.exists("/verif/tools/manifest_extra.py") else None
NOTYET = "the simulator for this part of the system is not finished"
NA = globals().get("NA", {})
checks, na = [], []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in CLAIMED:
        c, note = CLAIMED[p]
        checks.append(dict(property=p, quick_cmd=f"./check.sh {c} {p} quick", thorough_cmd=f"./check.sh {c} {p} thorough",
                           technique=TECH.get(p, T[c]), level="exploration", level_note=note, evidence_file=f"evidence/{p}.json"))
    else:
        na.append(dict(property=p, reason=NA.get(p, NOTYET)))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
H = globals().get("HOOKS")
if H: m["hooks"] = H
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
