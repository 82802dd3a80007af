"""Show where a check spent its time (reads its evidence file)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in sys.argv[1:]:
    e = json.load(open(os.path.join(ROOT, "evidence", c + ".json")))
    cov = e["coverage"]
    print(c, e["tier"], "wall", e["wall_s"], "states", cov["states"], "replayed", cov["traces_validated_against_impl"])
    for m in cov["tlc_runs"]:
        print("   tlc", m["module"], m["states"], m["seconds"], m.get("suite", {}).get("name", ""))
    for k in ("suites", "recorded"):
        for s in cov.get(k, []):
            print("  ", s)
