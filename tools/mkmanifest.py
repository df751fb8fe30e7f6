#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a file mc/cNN.go is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {
 "C07": "Every interleaving of two threads up to the preemption bound on an instrumented copy of the real code, at statement granularity; sequentially consistent memory, data races additionally by the race detector on free runs.",
 "C08": "Exhaustive over all trees, event orders, stall positions and resets in the bound, on the package's own bin tree; trusts the recursive reference evaluation of the tree.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(f"{V}/mc/{i.lower()}.go"):
        na.append(dict(property=i, reason="not built yet"))
        continue
    tech = "explicit bounded exhaustive exploration of the implementation against a reference model (every case of the stated space is executed)"
    if i == "C07":
        tech = "stateless model checking: controlled scheduler over instrumented real code, all schedules up to a preemption bound"
    elif i == "C08":
        tech = "explicit-state model checking: breadth-first search over all states of all small condition trees, each transition executed on the real code"
    elif i == "C05":
        tech = "bounded exhaustive exploration of operation histories on the implementation, against a fresh instance"
    checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking",
        level_note=NOTE.get(i, "Every case of the bounded space named in the evidence file is executed on the real code; trusts the reference model in mc/model.go (or the differential oracle named in DESIGN.md) and the small scope: faults that need larger inputs than the bound are not seen.")))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         hooks=dict(guard="verif", enable="no hooks in /repo are needed: checks build a scratch copy of /repo's working tree together with the harness of /verif/mc", source_commits=[]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
