#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing against an independent day-count reference",
    "C02": "property-based testing with complete enumeration of short periods against a day-by-day reference",
    "C03": "property-based round-trip testing",
    "C09": "property-based testing: residual of the returned rate, uniqueness by bracketing",
    "C17": "property-based round-trip testing of pricing and yield",
    "C23": "stateful model-based testing of entry histories",
    "C25": "property-based and complete pairwise testing against signed sums per account",
    "C29": "stateful model-based testing of operation histories",
    "C33": "property-based round-trip testing through RON and JSON",
    "C34": "property-based testing: the printed text is parsed and every cell compared",
}
checks = []
for l in open(f"{root}/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": TECH.get(i, "property-based testing against a reference model, with shrinking"),
        "level": "exploration",
        "level_note": "Generated inputs of the stated domain, compared with an independent reference within stated rounding tolerances; sampled, not exhaustive, except for the enumerated laws (see DESIGN.md).",
    })
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": []}, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
