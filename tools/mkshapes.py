#!/usr/bin/env python3
"""record the closures and loop headers of the functions that have closure or loop contracts, and the names they bind (contracts/shapes.json): a closure contract finds its closure when others come or go, and invariants written for other loops are known to be so, and annotations follow renamed variables"""
import glob, json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    subprocess.run([V + "/extractor/target/release/vextract", "--repo", "/repo", "--specs", "", "--contracts", ",".join(sorted(glob.glob(V + "/contracts/*.vc"))), "--out", d + "/g.rs", "--map", d + "/m.json"], check=True)
    m = json.load(open(d + "/m.json"))
out = {f["name"]: {k: v for k, v in (("closures", f["closures"]), ("loops", f["loop_shapes"]), ("names", f["names"])) if v} for f in m["functions"] if f["closures"] or f["loop_shapes"] or f["names"]}
json.dump(out, open(V + "/contracts/shapes.json", "w"), indent=0, sort_keys=True)
open(V + "/contracts/shapes.json", "a").write("\n")
print(len(out), "functions with closure or loop contracts or variables")
