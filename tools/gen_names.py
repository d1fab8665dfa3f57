"""lib/names.json: the names the checks know, from the current tree of /repo (regenerate when the checks are adapted to new names)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import repo, names
out = {}
for c, (pk, feats, flags, crates) in sorted(repo.CONFIGS.items()):
    d = repo.dump(c)
    items = []
    for k in crates:
        p = os.path.join(d, k + ".json")
        if os.path.exists(p):
            items += json.load(open(p))["items"]
    out[c] = names.summary(items)
    print(c, len(out[c]["types"]), len(out[c]["fns"]))
json.dump(out, open(names.HERE, "w"), indent=None, separators=(",", ":"), sort_keys=True)
