"""Writes /verif/MANIFEST.json from the table below (run by hand after adding a check)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "*": "TLC explores the specification exhaustively within the bounds written to the evidence file; every explored behaviour is replayed on the code of /repo, "
         "and recorded answers of that code to random inputs are checked by TLC against the same specification. Beyond those bounds it is sampling.",
}
TECH = "TLA+ specification checked with TLC; its behaviours replayed on the real code and recorded runs of the real code checked against it (trace validation)"


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    have = {}
    for m in check.MODULES:
        have.update(importlib.import_module(m).ALL)
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in have:
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": TECH,
                           "level": "model_checking", "level_note": NOTE.get(i, NOTE["*"])})
        else:
            na.append({"property": i, "reason": "not yet claimed: its check is still being built"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
