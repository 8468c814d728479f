#!/usr/bin/env python3
"""Shows the costliest runs of the last check of a property."""
import json, os, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    e = json.load(open(root + "/evidence/%s.json" % p))
    rs = e["coverage"]["harness_runs"]
    print(p, e["wall_s"], "s")
    for r in sorted(rs, key=lambda r: -r["instructions"] - 3000 * r["symbolic_branches_decided"])[:10]:
        print("  %9d paths %6.0fM instr %8d branches  %s %s" % (r["paths"], r["instructions"] / 1e6, r["symbolic_branches_decided"], r["bound"], r["params"]))
