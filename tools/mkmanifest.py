#!/usr/bin/env python3
"""MANIFEST.json from contracts/units.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
u = json.load(open(V + "/contracts/units.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = u["properties"].get(i)
    if c is None:
        na.append({"property": i, "reason": u.get("not_applicable", {}).get(i, "no contract within the verifier's reach yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "contract-based deductive verification (Verus) of the functions extracted from /repo's source on every run"
                     + ("; bounded executable contracts for the rest" if c.get("bounded") else ""),
        "level": "proof",
        "level_note": c.get("note", "Every function listed in the evidence is checked against its contract for all inputs; library types are assumed to meet the contracts in trusted_base.")
                     + (" Bounded, not proved: " + ", ".join(c["bounded"]) + "." if c.get("bounded") else ""),
        "theorems": c.get("theorems", []),
    })
json.dump({"version": 1, "setup_cmd": "cd /verif/extract && cargo build --release --offline", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the functions are extracted from /repo's source; the executable contracts use the public API."},
          open(V + "/MANIFEST.json", "w"), indent=1)
