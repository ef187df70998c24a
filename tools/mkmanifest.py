#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks (tools/claims.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from claims import CLAIMS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i not in CLAIMS:
        continue
    level, tech, note = CLAIMS[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "Not claimed yet: its explorer is still being built.")} for i in ids if i not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "go test -c -overlay <generated> -tags 'ledger test_ledger_mock verif' (tools/run.py); no hook commits in /repo: instrumentation is generated into an overlay at check time", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Model checking only. See DESIGN.md; genuine defects in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
