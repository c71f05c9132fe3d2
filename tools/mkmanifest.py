#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from snapverif import registry
NA = {
 "C43": "Whether a generated patch transforms the old text into the new one is an equality of computed texts; the hunk arithmetic has no structural form a sound rule could decide.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in registry.RULES:
        r = registry.RULES[i]
        checks.append(dict(property=i, quick_cmd="python3 -m snapverif.check " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 -m snapverif.check " + i,
                           evidence_file="evidence/%s.json" % i, technique=r.technique, level="other", level_note=r.note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check is registered for it yet.")))
m = dict(version=1, setup_cmd="python3 -m snapverif.facts", checks=checks, not_applicable=na,
         notes="Static analysis only: a rustc driver (driver/main.rs) extracts MIR facts from /repo's current tree under cargo +nightly check; "
               "snapverif/engine.py follows them path-sensitively; snapverif/rules holds one rule per property. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable:", [x["property"] for x in na])
