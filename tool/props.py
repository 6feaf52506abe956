#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when checks/<id>.py exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCO, IFO, SQP, COM = "trajopt_sco/src/", "trajopt_ifopt/src/", "trajopt_optimizers/trajopt_sqp/src/", "trajopt_common/include/trajopt_common/"
SCOH, IFOH, SQPH = "trajopt_sco/include/trajopt_sco/", "trajopt_ifopt/include/trajopt_ifopt/", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/"
P = []
NA = {}
VF = "path-sensitive value-flow summaries (symbolic value numbering, no solver, no execution) compared with reference definitions"


def prop(id, title, statement, over, text, why, files, mech, state=(), tech=VF, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))
    TECH[id] = tech
    NOTE[id] = note
    if na:
        NA[id] = na


TECH, NOTE = {}, {}
exec(open(os.path.join(V, "tool", "proptable.py")).read())

DEFNOTE = ("Decides every listed obligation for all inputs and sizes by comparing value-flow summaries of the current sources; trusts clang's resolution, "
           "the models of the standard library and Eigen operations, real-number (not floating-point) arithmetic, and that calls it cannot see "
           "change only what they are handed by mutable reference. Code it cannot follow is reported as undecided, never as a violation.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py --tier quick" % i, thorough_cmd="python3 checks/%s.py --tier thorough" % i,
                           technique=TECH[i], level="other", level_note=NOTE[i] or DEFNOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 lib/program.py --build", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")

# DESIGN.md: the text of tool/DESIGN.in.md with its tables
kf = json.load(open(os.path.join(V, "known_findings.json")))
fixed = ["| property | commit | what failed |", "|---|---|---|"]
for l in kf["fixed"]:
    pr, h, what = l[len("fixed: property="):].split(" ", 2)
    fixed.append("| %s | %s | %s |" % (pr, h, what.replace("|", "\\|")))
seeds = ["| planted change | property | what it breaks | caught by |", "|---|---|---|---|"]
res = {}
rp = os.path.join(V, "tool", "seeds", "results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), res.get(d, "-")))
nas = ["| property | reason |", "|---|---|"] + ["| %s %s | %s |" % (x["property"], next(p["title"] for p in P if p["id"] == x["property"]), x["reason"]) for x in na]
t = open(os.path.join(V, "tool", "DESIGN.in.md")).read()
t = t.replace("FIXED_TABLE", "\n".join(fixed)).replace("SEED_TABLE", "\n".join(seeds)).replace("NA_TABLE", "\n".join(nas))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
