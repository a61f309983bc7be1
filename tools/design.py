#!/usr/bin/env python3
"""DESIGN.md = intro + a section per property + seeded changes + defects + outro"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=(), state=(), level="model_checking", claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=files, mechanism=mechanism, technique=technique, note=note, observe=observe, claim=claim, reason=reason))
def m(name, where):
    return dict(name=name, where=where)
exec(open(os.path.join(V, "tools", "props_data.py")).read())
exec(open(os.path.join(V, "registry.py")).read())
out = [open(os.path.join(V, "tools", "design_intro.md")).read()]
for p in P:
    out.append("### %s: %s\n" % (p["id"], p["title"]))
    out.append("*Specified.* " + p["statement"] + "\n")
    out.append("*Enumerated.* " + p["qtext"] + ".\n")
    out.append("*Decided by* " + p["technique"] + ". " + p["note"] + " Observed: " + ", ".join(p["observe"]) + ".\n")
    out.append("*Why tests can not settle it.* " + p["why"] + "\n")
    out.append("*Code.* " + "; ".join("%s (%s)" % (x["name"], x["where"]) for x in p["mechanism"]) + ". *Harness.* " + ", ".join("harness/" + s for s in CHECKS[p["id"]]["sources"] if s != "mc.cpp") + ".\n")
    for tier, f in (("quick", "evidence/%s.json" % p["id"]), ("thorough", "evidence-thorough/%s.json" % p["id"])):
        f = os.path.join(V, f)
        if not os.path.exists(f):
            continue
        e = json.load(open(f))
        if e["tier"] != tier:
            continue
        c = e["coverage"]
        out.append("*Covered (%s).* %s executions, %s choice points, %.0f s. Sections: %s.\n" % (tier, format(c["evaluations"], ","), format(c["transitions"], ","), e["wall_s"],
                   "; ".join("%s %s" % (s["section"], format(s["executions"], ",")) for s in c["sections"])))
        if tier == "quick" and e.get("assumptions"):
            out.append("*Assumed.* " + " ".join(e["assumptions"]) + "\n")
out.append("## Seeded changes\n\nEach was confirmed in a scratch copy (builds, passes the stable tests, demonstration passes without and fails with it) and run against the check of its property by `tools/bugtest.py`.\n")
out.append("| change | needs | breaks | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["needs"], j["what_it_breaks"], j.get("caught", "P" + os.path.basename(os.path.dirname(d))[1:3])))
k = json.load(open(os.path.join(V, "known-findings.json")))["findings"]
out.append("\n## Known findings\n")
for x in k:
    if x["status"] == "known":
        out.append("* %s (`%s`): %s" % (x["property"], x["key"], x["entry"]))
out.append("\n## Defects found and repaired\n\nOne `fix:` commit in /repo each; the check of the property reports the violation again without it (all were first seen as a violation of the check on the original tree).\n")
for x in k:
    if x["status"] == "fixed":
        out.append("* " + x["entry"].replace("fixed: property=", ""))
out.append("\n" + open(os.path.join(V, "tools", "design_outro.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
