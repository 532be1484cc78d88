"""Writes MANIFEST.json from the implemented check modules and properties.jsonl."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(V, "rv", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    m = importlib.import_module("rv.checks." + p["id"].lower())
    checks.append(dict(
        property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"], thorough_cmd="bin/check %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="runtime monitoring: " + getattr(m, "TECHNIQUE", "generated executions of the real code judged by an independent reference"),
        level=m.LEVEL,
        level_note=getattr(m, "NOTE", "Holds on every execution explored; trusts the reference model in rv/ and the domain of the workload generator.")
        + (" Assumes: " + "; ".join(m.ASSUMPTIONS) if getattr(m, "ASSUMPTIONS", None) else "")))
man = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
           notes="Checks import mediagrains from /repo's working tree (/opt/venv/bin/python, no byte code written). No hooks in /repo. "
                 "bin/check ID --case KEY --seed N replays one case. Known and repaired findings: known_findings.json.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
