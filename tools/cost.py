"""Record the cost of the last quick run of every check (from evidence/) in tools/cost.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parents[1]
o = {}
for f in sorted((V / "evidence").glob("P*.json")):
    e = json.load(open(f))
    if e["tier"] == "quick":
        o[e["property"]] = dict(wall=round(e["wall_s"]), events=e["coverage"]["evaluations"], distinct=e["coverage"]["distinct_nontrivial"], tasks=e["coverage"].get("tasks", 0))
json.dump(o, open(V / "tools/cost.json", "w"), indent=0, sort_keys=True)
