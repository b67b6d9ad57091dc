#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py (run by hand after editing the catalog)."""
import json, os, subprocess
from catalog import CATALOG
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for c in CATALOG:
        assert len(c["title"]) <= 80, c["title"]
        o = {k: c[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for c in CATALOG:
    if c["id"] in PROPS:
        checks.append({"property": c["id"],
                       "quick_cmd": "python3 check.py %s --tier quick" % c["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % c["id"],
                       "evidence_file": "evidence/%s.json" % c["id"],
                       "technique": c.get("technique", "model checking: stateless exhaustive exploration of the real code"),
                       "level": "model_checking",
                       "level_note": c["note"]})
    else:
        na.append({"property": c["id"], "reason": c.get("reason", "no check yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the code under test is observed through the compiler's -fsanitize=thread "
              "instrumentation, whose run-time library is replaced by rt/mc.cpp."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
