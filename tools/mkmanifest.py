#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the claims below (developer aid)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification (%s) model checked with TLC; TLC-generated behaviours and seeded random histories replayed on the real code, every recorded trace checked by TLC against the specification"
LEVEL = ("Exhaustive over the design model's finite constants; on the code, conformance of every explored history. "
         "%s Trusts TLC, the driver's projection of the real state, and the environment named in the evidence's assumptions.")
exec(open(os.path.join(V, "tools/claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        mods, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="VERIF_TIER=thorough bin/check %s" % i,
                           technique=TECH % mods, level="model_checking", level_note=LEVEL % note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the specification module and driver for this property are not finished; nothing is claimed yet")))
m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na)
hooks = globals().get("HOOKS")
if hooks:
    m["hooks"] = hooks
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
