"""Collects tools/cost.json from the evidence of the last run of every check."""
import glob
import json

try:
    out = json.load(open("/verif/tools/cost.json"))
except OSError:
    out = {}
for f in sorted(glob.glob("/verif/evidence/*.json")):
    e = json.load(open(f))
    if e["tier"] == "quick" and not e.get("violations"):
        out[e["property"]] = {"states": e["coverage"]["states"], "transitions": e["coverage"]["transitions"], "seconds": round(e.get("wall_s", 0))}
json.dump(out, open("/verif/tools/cost.json", "w"), indent=0)
