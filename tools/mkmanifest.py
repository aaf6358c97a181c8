#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the rule modules."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EQ = "static analysis: abstract interpretation of the source to symbolic value graphs (symbolic dimensions, loops summarised as recurrences), equality with the graph of the specification decided by random interpretation"
EFF = "static analysis: abstract interpretation of the source over all paths with an effect analysis"
SRC = "static analysis: query over the syntax trees of the classes"
TECH = {"C15": EFF + " (provenance of every random draw)", "C16": EFF + " (writes by owner, aliases of results)", "C17": EFF + " (shape and exception analysis) and value graphs of the defaults",
        "C18": EFF + " (exceptions on every path)", "C19": SRC + " and abstract interpretation of construction", "C20": EFF + " (symbolic shapes) and value graphs",
        "C21": EFF + " (warning events)", "C22": EQ, "C23": EFF + " (integer-typed stores) and value graphs"}
NOTE = "Decides the property for every input within the stated analysis assumptions (real arithmetic, modelled numpy/scipy operations, random interpretation of value graphs at several instantiations of the symbolic dimensions); not a machine-checked proof."
NA = {"N01": "The guarantee is an inequality about real-valued likelihoods that follows from convexity (Jensen), not from a structural fact of the source; C03 decides that each M-step is the closed-form maximiser, but no sound static argument here bounds the likelihood itself.",
      "N02": "Concerns rounding errors of floating-point factorisations for ill-conditioned inputs; bounding them needs a numeric error analysis of LAPACK routines that no static analysis in reach provides.",
      "N03": "Compares numbers computed at run time with a data file; deciding it means running the filter, which is not static analysis.",
      "N04": "A limit statement about empirical distributions of pseudo-random numbers; C14 and C15 decide the structural part (which draws with which moments from which generator)."}
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/kfa/props/{i.lower()}.py"):
        checks.append(dict(property=i, quick_cmd=f"python3-vt -m kfa.check {i} --tier quick", thorough_cmd=f"python3-vt -m kfa.check {i} --tier thorough", technique=TECH.get(i, EQ), level="other", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import numpy'", checks=checks, not_applicable=na), open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
