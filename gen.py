#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/registry.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import registry as R

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for k in sorted(R.PROPS):
        fh.write(json.dumps(R.PROPS[k]) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for k in sorted(R.CHECKS):
    meta = R.CHECKS[k][2]
    m["checks"].append({"property": k, "quick_cmd": "python3 run.py %s quick" % k, "thorough_cmd": "python3 run.py %s thorough" % k,
                        "technique": meta["technique"], "level": meta["level"], "level_note": meta["level_note"],
                        "evidence_file": "evidence/%s.json" % k})
for k in sorted(R.NOT_APPLICABLE):
    m["not_applicable"].append({"property": k, "reason": R.NOT_APPLICABLE[k]})
with open(os.path.join(here, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")

doc = os.path.join(here, "DESIGN.md")
txt = open(doc).read()
b, e = "<!-- properties: generated by gen.py -->\n", "<!-- end of generated part -->\n"
if b in txt and e in txt:
    out = []
    for k in sorted(R.PROPS):
        p = R.PROPS[k]
        out.append("### %s %s\n\n" % (k, p["title"]))
        out.append(p["statement"] + "\n\n")
        if k in R.NOT_APPLICABLE:
            out.append("**Not applicable.** " + R.NOT_APPLICABLE[k] + "\n\n")
            continue
        mod, fn, d = R.CHECKS[k]
        out.append("* **Decided by** %s (`props/%s.py`, `%s`).\n" % (d["technique"], mod, fn))
        out.append("* **Analysed:** %s\n" % d["explanation"])
        out.append("* **Oracle (rules):** " + "; ".join(d["rules"]) + ".\n")
        out.append("* **Bounds:** %s\n" % d["level_note"])
        extra = d["assumptions"][len(R.COMMON_ASSUMPTIONS):]
        if extra:
            out.append("* **Assumptions:** " + "; ".join(extra) + ".\n")
        out.append("* **Why tests cannot:** %s Quantified over %s.\n\n" % (p["why_tests_cant"], p["quantifier"]["text"]))
    txt = txt[:txt.index(b) + len(b)] + "\n" + "".join(out) + txt[txt.index(e):]
    open(doc, "w").write(txt)
