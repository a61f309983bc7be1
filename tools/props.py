#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=(), state=(), level="model_checking", claim=True, reason=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, technique=technique,
                  note=note, observe=list(observe), state=list(state), level=level, claim=claim, reason=reason))


def m(name, where):
    return dict(name=name, where=where)


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd=SETUP, checks=[], not_applicable=[])
for p in P:
    if p["claim"]:
        man["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                                  evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
