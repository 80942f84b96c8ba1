#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The properties live here because one JSON
object per line is unpleasant to edit by hand."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
    }
    for k in ("state", "observe_at", "hook_needed"):
        if k in kw:
            anchors[k] = kw[k]
    P.append({
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": anchors,
    })


OSI = "lib/osi/src/"
SYS = "lib/sys/src/"
TMP = "lib/tmp/src/"

exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
P.sort(key=lambda p: p["id"])
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
