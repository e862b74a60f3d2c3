#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import PROPS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p.get("technique", "bounded exhaustive exploration of the real code against a reference model"),
                       "level": "model_checking", "level_note": p.get("note", "") or ("Complete within the bound: " + p["bound"]["quick"] + ". " + NOTES)})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the harnesses compile the repository's sources as they are"},
     "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
