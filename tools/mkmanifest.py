#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine.props import PROPS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
 "N01": "amortised cost is a sum over operation histories of run-time copying work; the structural part (growth by a constant factor) is claimed under C14, the rest is a complexity bound that no rule over the code's shape here decides",
 "N02": "Stacked/Tree Borrows violations depend on the run-time interleaving of tagged accesses; no static borrow-model analysis is available for raw-pointer code here (Miri decides it dynamically, another family)",
 "N03": "quantifies over arbitrary foreign unsafe code; the traits are `unsafe` so that this is the implementor's obligation, which C17 checks at the type level; the checks assume the trait's contract",
}
checks = []
na = []
for p in props:
    i = p["id"]
    s = PROPS.get(i)
    if s:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=s["technique"], level=s.get("level", "other"), level_note=s["level_note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the checks read the unmodified crate. All checks analyse /repo's working tree on every run; nothing from /repo is executed."),
    open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
