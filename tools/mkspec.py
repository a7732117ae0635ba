#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and the registry of checks in engine/checks."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from spec import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         hook_needed=None))) + "\n")
checks, na = [], []
for p in PROPS:
    have = os.path.exists(os.path.join(root, "engine", "checks", p["id"] + ".py"))
    if have:
        checks.append(dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="./check %s" % p["id"],
            technique=p["technique"] or "abstract interpretation of rustc MIR: joined-state value numbering, compared with the specified value", level="other", level_note=p["note"] or "see DESIGN.md"))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
TECH = {
 "C05": "effect analysis over the call graph of the compiled crate (deny/allow lists on resolved callees, statics, interior mutability)",
 "C08": "typestate of failures: dataflow over all control flow of the MIR, interprocedural along the call graph",
 "C30": "typestate of failures and of buffered writers: dataflow over all control flow of the MIR",
 "C31": "lint on the MIR: unsafe operations, unsafe blocks, extern items and unsafe impls of the workspace",
 "C33": "termination: natural loops of the MIR with finite-iterator recognition and ranking functions; recursion by strongly connected components of the call graph",
 "C25": "abstract interpretation of rustc MIR to a value expression; monotonicity by sign rules, constants by rational enclosures",
 "C13": "abstract interpretation of rustc MIR to value expressions; sign analysis of divisors and radicands",
 "C14": "abstract interpretation of rustc MIR to value expressions; sign analysis of logarithm arguments",
}
for c in checks:
    if c["property"] in TECH: c["technique"] = TECH[c["property"]]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="All checks are static analyses of the MIR that the repository's current source compiles to; no hooks in /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(PROPS), "properties", len(checks), "checks")
