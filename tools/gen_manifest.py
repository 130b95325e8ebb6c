#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py; properties without a plan are listed as not applicable (yet)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
NOT = {}
try:
    from plan import NOT_APPLICABLE as NOT
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' cargo build (done by ./check); at run time VERIF_PAUSE=SEED,PERMILLE,MAX_US", "source_commits": ["b62e252"]},
    "checks": [
        {"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}", "evidence_file": f"evidence/{p}.json",
         "technique": PLAN[p]["technique"], "level": PLAN[p]["level"], "level_note": PLAN[p]["note"]}
        for p in props if p in PLAN
    ],
    "not_applicable": [{"property": p, "reason": NOT.get(p, "check not built yet")} for p in props if p not in PLAN],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
