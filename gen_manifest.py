#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
d = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS):
        c = PROPS[p]
        f.write(json.dumps({"id": p, **{k: c[k] for k in ("title", "statement", "quantifier", "why_tests_cant", "anchors")}}) + "\n")
        assert len(c["title"]) <= 80, (p, len(c["title"]))
    for n in NOT_APPLICABLE:
        if "text" in n:
            f.write(json.dumps({"id": n["property"], **n["text"]}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": PROPS[p]["technique"],
        "level": PROPS[p]["level"],
        "level_note": PROPS[p]["level_note"],
    } for p in sorted(PROPS)],
    "not_applicable": [{"property": n["property"], "reason": n["reason"]} for n in NOT_APPLICABLE],
    "notes": "Contract-based deductive verification of the real code: Verus on functions extracted mechanically from /repo on every run; the same contracts are executed on the compiled crate to find failing inputs and to audit what the proofs assume. See DESIGN.md.",
}
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(d, "MANIFEST.json"), "a").write("\n")
import gen_design
gen_design.write(PROPS, NOT_APPLICABLE)
