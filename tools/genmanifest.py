#!/usr/bin/env python3
# Writes MANIFEST.json from checks.json (the claimed checks) and properties.jsonl.
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cfg = json.load(open(os.path.join(V, "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing (rapid): generated histories against a reference model"),
            "level": "exploration",
            "level_note": c.get("level_note", "Random search over generated cases; no claim beyond the cases explored. Trusts the Go toolchain, the operating system's files and the harness's own model.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds harness/<id> from /repo's working tree (go build with a replace directive) and runs it in parallel shards; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
