#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "meta"))
from props import PROPS
TECH = "contract-based deductive verification: obligations generated from the SSA of the real functions against their contracts, discharged by z3/cvc5"
NOTE = ("Each function under contract is proved against a constructive postcondition (results, error condition, heap effect) for all inputs "
        "allowed by its precondition; callees are replaced by their own verified contracts. Trusted: go/ssa extraction, the condition generator in vc/, "
        "z3/cvc5; float operations are uninterpreted (order-exact) unless stated. Samples are additionally replayed on the compiled code. ")
props, checks, na = [], [], []
for p in PROPS:
    mech = [{"name": n, "where": w} for n, w in p["mech"]]
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
                  "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": mech}})
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3-vt vc/check.py %s" % p["id"],
                       "thorough_cmd": "python3-vt vc/check.py %s --tier thorough" % p["id"],
                       "technique": TECH, "level": p.get("level", "proof"), "level_note": NOTE + p.get("note", "")})
    assert len(p["title"]) <= 80, p["id"]
json.dump({"version": 1, "setup_cmd": "python3-vt vc/check.py --setup",
           "hooks": {"guard": "verif", "enable": "not needed: the checks read the unmodified sources and add in-package replay harnesses through go test -overlay", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "known findings and repairs: known_findings.txt"},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
