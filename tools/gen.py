#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks/registry.py (run with python3-vt)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
sys.dont_write_bytecode = True
from props import P
from checks import registry

NA = {
    "C90": "convergence of a non-convex iteration on numeric data: a statement about runtime quantities; no static argument in reach bounds it",
    "C91": "bounds on floating-point rounding through FFTs and transcendental functions of TensorFlow kernels; the analysis works in exact arithmetic and cannot bound them",
    "C92": "a quantitative bound on the discretization error of sums over a pixel grid; needs numerical analysis of runtime values, not a rule over the source",
    "C93": "execution time and device placement on GPU hardware; nothing in the source decides it",
}
TECH = {
    "value": "abstract interpretation with value numbering (normal forms, random interpretation) against a reference formula",
    "effect": "effect, alias and typestate analysis by abstract interpretation of call sequences",
    "mixed": "abstract interpretation: value numbering plus dtype/effect analysis of call sequences",
    "ast": "syntax-tree query: exports, signatures and call sites",
}
KIND = {"C07": "mixed", "C14": "mixed", "C15": "effect", "C16": "mixed", "C17": "mixed", "C22": "mixed", "C26": "effect",
        "C27": "effect", "C28": "effect", "C29": "effect", "C31": "effect", "C32": "effect", "C33": "effect", "C34": "effect",
        "C35": "mixed", "C36": "ast", "C37": "mixed"}

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in registry.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s" % i,
            "thorough_cmd": "python3-vt check.py %s --thorough" % i,
            "technique": TECH[KIND.get(i, "value")],
            "level": "other",
            "level_note": "Static analysis of the working tree, nothing is executed. Inputs, sizes and parameters are symbolic; "
                          "sound relative to the library models in sa/lib*.py and exact arithmetic. Obligations the analysis cannot decide "
                          "are reported as undecided in the evidence and never as violations (none on the committed tree).",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import numpy, ast'", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
