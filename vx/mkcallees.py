"""vx/callees.json: what the functions of each unit call on the pinned tree (check.py: foreign_calls)."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen

out = {}
for f in sorted(os.listdir(os.path.join(HERE, "..", "units"))):
    if f.endswith(".vu"):
        u = gen.generate(f[:-3])
        out[f[:-3]] = sorted({c for x in u.fns for c in x["calls"]})
with open(os.path.join(HERE, "callees.json"), "w") as h:
    json.dump(out, h, indent=0, sort_keys=True)
    h.write("\n")
