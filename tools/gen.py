#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py and plan.json."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_data import CLAIMED, NOT_APPLICABLE
plan = json.load(open(os.path.join(ROOT, "plan.json")))
allp = CLAIMED + [p for p, _ in NOT_APPLICABLE]
for p in allp:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert len(re.findall(r"[.](?:\s|$)", p["statement"])) <= 3, p["id"]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in allp:
        fh.write(json.dumps(p) + "\n")
checks = []
for p in CLAIMED:
    pid = p["id"]; pl = plan[pid]
    checks.append(dict(
        property=pid,
        quick_cmd=f"./check.py {pid} --tier quick",
        thorough_cmd=f"./check.py {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json",
        technique="deterministic simulation with fault injection: " + pl["technique"],
        level="exploration",
        level_note=pl["level_note"],
    ))
man = dict(
    version=1, setup_cmd="./setup.sh", checks=checks,
    not_applicable=[dict(property=p["id"], reason=r) for p, r in NOT_APPLICABLE],
    notes=("No hooks in /repo: the simulator replaces the multiprocessing packages' entry points, shared memory, "
           "managers and the file system calls before importing the code, and builds the extensions from "
           "/repo's working tree into a scratch directory on every run."),
)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(line), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(CLAIMED), "claimed,", len(NOT_APPLICABLE), "not applicable")
except ImportError:
    print("jsonschema missing")
