#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the check classes."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import registry  # noqa: E402

NOTE = {
    "model_checking": "Exhaustive within the stated bounds: every enumerated execution of the real code is compared with an independent "
                      "reference model (states/transitions counted there). Trusted: the model's transcription of the W3C tables, CPython, rdflib.",
    "fault_enumeration": "Exhaustive over the stated fault points and histories, each executed on the real code. Trusted: the store/hook fault "
                         "injector, CPython, rdflib.",
    "exploration": "Exhaustive over the stated configurations, each executed on the real code. Trusted: the oracle described in DESIGN.md.",
}
checks = []
for ids in registry.MODULES.values():
    for i in ids.split():
        c = registry.get(i)
        checks.append({
            "property": i, "quick_cmd": "python3 -m mc.run %s quick" % i, "thorough_cmd": "python3 -m mc.run %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.technique, "level": c.level,
            "level_note": c.note or NOTE[c.level],
        })
checks.sort(key=lambda c: c["property"])
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
na = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
have = {c["property"] for c in checks} | {x["property"] for x in na}
for p in props:
    if p not in have:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks import /repo as it is", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
