#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 vf.py build", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 vf.py check %s --tier quick" % i, thorough_cmd="python3 vf.py check %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=c.get("technique", "runtime monitoring of the real code"), level="exploration",
                                level_note=c.get("note", "Holds on the executions explored and recorded in the evidence file; nothing is claimed about others.")))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check built yet"))
m["notes"] = "No hooks in /repo: the checks interpose the pthread/futex/clock/atomic entry points at link time and observe through the public interface."
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
