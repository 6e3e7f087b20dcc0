#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "trunk/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
