#!/usr/bin/env python3
"""write MANIFEST.json from props.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/props.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = conf["properties"].get(i)
    if c is None:
        na.append({"property": i, "reason": conf.get("not_applicable", {}).get(i, "not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": c.get("technique", "contract-based deductive verification (Verus) of the functions extracted from the source, with a bounded stand-in where labelled"),
        "level": c["level"],
        "level_note": c.get("level_note", "every listed function is verified against its contract on every run"),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
