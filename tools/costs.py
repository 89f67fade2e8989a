"""costs.py: notes the costs of the last runs (evidence/) in tools/costs.json."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(here, "costs.json")
costs = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(os.path.join(here, "..", "evidence", "???.json")):
    e = json.load(open(e))
    c = e["coverage"]
    if e.get("violations") or c.get("violations"):
        continue
    costs.setdefault(e["property"], {})[e["tier"]] = "%.0f s on 8 cores, %d paths, %d queries, %s" % (
        e["wall_s"], c["states"], c["solver_queries"],
        "exhausted" if c["exhausted_within_bounds"] else "budget spent with %d open prefixes" % c["open_prefixes"])
json.dump(costs, open(f, "w"), indent=1, sort_keys=True)
