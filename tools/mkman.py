#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and spec/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
pr = json.load(open(f"{V}/spec/props.json"))
na = {"C20": "The step circuit cannot be synthesised at all: StepCircuit::synthesize indexes an empty output vector, unwraps missing witnesses, asserts an unsatisfiable target product and ends in a shape its own folding scheme refuses (see DESIGN.md, finding H1); its SHA-256 and folding parts live in dependencies outside the reach of contracts on this code."}
checks = []
for i in ids:
    if i in na:
        continue
    c = dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough")
    if i in pr and pr[i].get("relational"):
        c.update(technique="contract-based deductive verification: relational Verus contracts on product programs made from the functions extracted from /repo on every run",
                 level="proof",
                 level_note="Every function that builds circuits is doubled mechanically into a function that executes two runs side by side; its contract (same shape in, same allocations and constraints and same shape out) is discharged for all inputs. The real code is also run with and without witnesses on bounded cases, which give the failing input. When the proof cannot be redone the bounded cases decide, and the evidence says so.")
    elif i in pr:
        c.update(technique="contract-based deductive verification: Verus contracts on functions extracted from /repo on every run",
                 level="proof",
                 level_note="Every obligation of the functions listed in spec/props.json is discharged for all inputs; the real code is also run on bounded cases, which give the failing input when an obligation fails. " + pr[i].get("note", ""))
    else:
        c.update(technique="bounded execution of the real code against every assignment (stand-in for contracts)", level="exploration",
                 level_note="Bounded stand-in, not a proof: exhaustive search for satisfying assignments of the real circuits in small fields, directed cases in the 255-bit fields.")
    checks.append(c)
m = dict(version=1, setup_cmd="bash tools/setup.sh", hooks=dict(guard="none", enable="no hooks: the checks use the public API and the source text", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()])
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
