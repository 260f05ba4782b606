#!/usr/bin/env python3
"""Writes spec/shapes.json, names.json and calls.json: the structure, the local names and the callees of each
function under contract in the tree the contracts were written for, and which functions that tree has."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from proof import callees  # noqa
with tempfile.TemporaryDirectory() as d:
    subprocess.run([os.path.join(V, "extract/target/debug/extract"), "/repo", os.path.join(V, "spec"), d + "/g.rs", d + "/g.json", "ALL"], check=True)
    j = json.load(open(d + "/g.json"))
json.dump({f["key"]: f["shape"] for f in j["functions"]}, open(os.path.join(V, "spec/shapes.json"), "w"), indent=0, sort_keys=True)


K = [f["key"] for f in j["functions"]]
json.dump({f["key"]: callees(f, K) for f in j["functions"]}, open(os.path.join(V, "spec/calls.json"), "w"), indent=0, sort_keys=True)

n = j["names"]
json.dump({"functions": n["functions"], "constants": n["constants"], "binders": {f["key"]: n["binders"][f["key"]] for f in j["functions"] if f["key"] in n["binders"]}},
          open(os.path.join(V, "spec/names.json"), "w"), indent=0, sort_keys=True)

import source  # noqa
json.dump(source.state("/repo"), open(os.path.join(V, "spec/source.json"), "w"), indent=0, sort_keys=True)
