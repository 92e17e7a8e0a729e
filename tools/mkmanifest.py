#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are (checks/<ID>.py) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {
 "H01": "Every derivation tree and log interleaving within small bounds is explored in TLC; generated and random histories run on both handlers and every record is validated against the specification. Beyond the bounds the programs are random.",
 "H06": "All interleavings of three calls are explored in TLC; chosen ones are forced on the real handlers at the points where they call out (marshaling, writer), plus free-running stress under the race detector.",
}
DEF = "TLC explores the specification exhaustively within small bounds; generated and seeded random behaviours run on the real code and each recorded result is validated against the same specification. Outside those behaviours nothing is proved."
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           technique="TLA+ specification model-checked with TLC; model-generated behaviours replayed on the real code and recorded traces validated by TLC against the specification",
                           level="model_checking", level_note=NOTE.get(i, DEF)))
    elif i not in NA:
        NA[i] = "The check for this property is not built yet."
m = dict(version=1, setup_cmd="bin/setup", checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in NA.items()],
         notes="Specifications in specs/, Go drivers in driver/ (built inside /repo's module through a build overlay; no hooks in /repo), one Python file per property in checks/.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks", len(NA), "not applicable")
