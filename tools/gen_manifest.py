#!/usr/bin/env python3
"""writes MANIFEST.json from the rule registry and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry

NA = {
    "Y01": "convergence from every starting point quantifies over the limit behaviour of an iteration on arbitrary user functions; no static argument in reach bounds it",
    "Y02": "the number of interior-point iterations a problem needs depends on runtime numeric values; the code contains no construct that bounds it",
    "Y03": "floating-point rounding through factorisations of runtime-conditioned matrices cannot be bounded from the source",
    "Y04": "run time is not a property of the source text",
}
NOTE = {
    "proof": "Holds for every input of the analysed entry points: all obligations are equalities or implications between value-graph terms computed from the current source and an independent specification. Assumes real-number arithmetic for double, the models of Eigen/std operations in sa/lib_*.py, and the clang front end; an obligation outside the modelled language is reported as undecided in the evidence, never as a violation.",
    "other": "Exhaustive query over every function of the library's resolved syntax tree. Assumes the clang front end and the call graph it resolves; constructs outside the query's model are listed in the evidence.",
}
TECH = {
    "proof": "static value-flow analysis: gated value numbering by abstract interpretation of the clang AST, normal-form comparison",
    "other": "static query over the type-checked syntax tree and call graph",
}
t = registry.table()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in t:
        _, level, expl = t[i]
        note, tech = registry.notes(i)
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --thorough" % i, "technique": tech or TECH[level],
                       "level": level, "level_note": note or NOTE[level]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check registered yet; the rule for this property is under construction")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
