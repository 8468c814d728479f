#!/usr/bin/env python3
"""Writes /verif/checks.json (what each check runs) and /verif/MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
NOTE = {}


def P(prop, note, outside, assumptions=(), package=None):
    C[prop] = {"runs": [], "outside": list(outside), "assumptions": list(assumptions)}
    if package:
        C[prop]["package"] = package
    NOTE[prop] = note
    return prop


def R(prop, harness, bound, expect=(), tier="", **params):
    C[prop]["runs"].append({"harness": harness, "params": params, "tier": tier, "expect": list(expect), "bound": bound})


def plans(*ps):
    return {"p%d" % i: p for i, p in enumerate(ps)}


exec(open(os.path.join(ROOT, "tools", "runs.py")).read())

TECH = "solver-based: symbolic execution of the real code's SSA, every path condition and assertion decided by SMT (QF_BV) within the stated bounds, counterexamples replayed on the compiled code"
NA = {
    "E03": "the property is about running text/template, yaml and file I/O on fixed committed inputs: nothing in it is symbolic, and the deciding code (text/template, go/format, yaml) is not encodable within reach; a plain regeneration and diff would decide it, which is not this technique",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = [{
    "property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
    "technique": TECH, "level": "model_checking", "level_note": NOTE[p],
} for p in props if p in C]
for p in props:
    if p not in C and p not in NA:
        NA[p] = "no check built yet"
man = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks,
       "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in C]}
json.dump(C, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
