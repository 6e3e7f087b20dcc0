#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the drivers present in harness/ and tools/levels.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    h = os.path.join(V, "harness", p["id"] + ".cpp")
    if os.path.exists(h):
        t = open(h).read()
        m = re.search(r"^// *NOTE: *(.*)$", t, re.M)
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
            technique="model checking: bounded-exhaustive exploration of the real templates, every case/sequence within the stated bounds compared with an independent reference model",
            level="model_checking",
            level_note=(m.group(1) if m else "exhaustive within the section bounds recorded in the evidence file; double precision")))
    else:
        na.append(dict(property=p["id"], reason="not yet claimed: driver under construction"))
json.dump(dict(version=1, setup_cmd="python3 -c pass", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
