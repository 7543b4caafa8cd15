"""writes /verif/MANIFEST.json"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tasks as T

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "abstract interpretation of compiler MIR (trace partitioning, loop summaries, linear/sequence domain): "
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p in T.CLAIMED:
        checks.append({
            "property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
            "technique": TECH + T.TECHNIQUE[p], "level": "other",
            "level_note": T.EXPLAIN[p] + " Assumes: " + "; ".join(T.ASSUME) + ". Trusts rustc's MIR, the engine's semantics of MIR and of the "
            "listed library functions, and its entailment prover."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": [{"property": p, "reason": T.NA.get(p, "check under construction")} for p in props if p not in T.CLAIMED]},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
