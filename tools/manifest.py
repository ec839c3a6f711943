"""Writes MANIFEST.json from properties.jsonl and lib/plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    pl = plans.PLANS.get(i)
    if not pl:
        na.append(dict(property=i, reason=plans.NOT_APPLICABLE.get(i, "no check has been built for it yet")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s quick" % i,
                       thorough_cmd="python3 lib/check.py %s thorough" % i,
                       technique=pl.get("technique", plans.TECHNIQUE), level=pl.get("level", "model_checking"),
                       level_note=pl.get("note", plans.NOTE)))
m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
