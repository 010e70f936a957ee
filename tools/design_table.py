"""Prints the table of planted changes for DESIGN.md (from the meta.json files)."""
import glob
import json
import os

by = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "seeded", "*", "meta.json"))):
    with open(f) as fh:
        by.setdefault(json.load(fh)["property"], []).append(os.path.basename(os.path.dirname(f)))
print("| check | planted changes it reports |\n|---|---|")
for k in sorted(by):
    print("| %s | %s |" % (k, ", ".join(by[k])))
