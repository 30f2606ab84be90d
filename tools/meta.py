#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (kept here so that the two stay in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, qtext, why, files, mech, note=None, over=("inputs",), py="python3", tech="CBMC code contracts", level="proof", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}))
    assert len(title) <= 80, title
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "%s vc/check.py %s --tier quick" % (py, id), "thorough_cmd": "%s vc/check.py %s --tier thorough" % (py, id),
                       "technique": tech, "level": level, "level_note": note})


CHECKS = []
CB = "contract-based deductive verification: function contracts on the real C source discharged by CBMC (goto-cc of the repository's files, contracts as assume/assert around the real function, SAT back end)"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "true", "checks": CHECKS, "not_applicable": NA}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
