#!/usr/bin/env python3
"""contracts/baseline.txt: parameter names and loop structure the contracts were written for (run on the tree they were written for)"""
import glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
p = os.path.join(V, "contracts", "baseline.txt")
if os.path.exists(p):
    os.remove(p)
with tempfile.TemporaryDirectory() as t:
    units = sorted({u for p in json.load(open(os.path.join(V, "contracts", "units.json")))["properties"].values() for u in p["units"]})
    for n in [u + ".vc" for u in units]:
        subprocess.run([os.path.join(V, "extract/target/release/ruler-extract"), "--contracts", os.path.join(V, "contracts"), "--unit", n, "--out", t + "/a.rs", "--meta", t + "/a.json"], check=True)
        for f in json.load(open(t + "/a.json"))["functions"]:
            if f["status"] != "verified":
                sys.exit("%s in %s is %s" % (f["key"], n, f["status"]))
            out[f["key"]] = "%s | %s | %s" % (f["key"], " ".join(f["params"]), " ".join(f["shape"]))
open(p, "w").write("\n".join(out[k] for k in sorted(out)) + "\n")
sys.path.insert(0, V)
sys.argv = ["check.py"]
import check
json.dump(check.literals(os.path.join(check.REPO, "src")), open(os.path.join(V, "contracts", "literals.json"), "w"), indent=0, sort_keys=True)
