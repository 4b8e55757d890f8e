#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]

NA = {}
TECH = {
    "exploration": "deterministic simulation: seeded search over schedules",
    "fault_enumeration": "deterministic simulation with fault injection: seeded search over schedules and faults",
}
NOTES = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(ROOT, "sim", "props", pid.lower() + ".py")
    if os.path.exists(path):
        consts = {}
        tree = ast.parse(open(path).read())
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECH", "NOTE"):
                consts[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s --tier quick" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": consts.get("TECH", TECH[consts["LEVEL"]]),
            "level": consts["LEVEL"],
            "level_note": consts.get("NOTE") or
            "Sampled, seeded runs of the real code against an exact reference model; every decision comes from one "
            "integer and every violation is a replayable minimised choice list. A clean batch is evidence, not proof; "
            "trusts the reference model, the seams listed in the evidence and CPython.",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
doc = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every seam (set order, randomness, threads, solver, async exceptions, stack) is "
             "installed from /verif when the code is loaded. Genuine defects were repaired in 'fix:' commits listed in "
             "known_findings.json. /verif/tools/selfcheck.py proves determinism of the simulator.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
