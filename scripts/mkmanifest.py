#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(H + "/scripts/claimed.txt").read().split()
NA = {}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        NA.setdefault(i, "not claimed yet: the contracts of its package are still being written (a bounded search alone would be another technique)")
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contracts on the real functions, mechanically translated from /repo on every run; every obligation discharged by Verus/Z3",
        "level": "proof",
        "level_note": "Deductive proof for all inputs and iterations that the translated functions meet their contracts; trusts the translation (/verif/tool), Verus/Z3, and the assumptions listed in the evidence file (sizes bounded by memory, well-behaved callbacks, no data races). A concrete failing history is searched on the real code when an obligation fails.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in CLAIMED],
    "notes": "No hooks in /repo: the contracts live in /verif/contracts and are joined with the mechanically translated source on every run.",
}, open(H + "/MANIFEST.json", "w"), indent=1)
