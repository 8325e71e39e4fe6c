#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from this single list"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, level, note,
         state=None, na=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, level=level, note=note,
                  state=state, na=na, thorough=thorough))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                 observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        fp.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                 quantifier=dict(over=p["over"], text=p["text"]),
                                 why_tests_cant=p["why"], anchors=a)) + "\n")

m = dict(version=1, setup_cmd="./check setup",
         checks=[], not_applicable=[],
         notes="Static analysis only; no hook in /repo. See DESIGN.md.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        c = dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
                 technique=p["technique"], level=p["level"], level_note=p["note"])
        if p["thorough"]:
            c["thorough_cmd"] = "./check %s --tier thorough" % p["id"]
        m["checks"].append(c)
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
