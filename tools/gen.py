#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vk/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vk.props import P
HOOK_COMMITS = [l.strip() for l in open(here + "/tools/hook_commits")] if os.path.exists(here + "/tools/hook_commits") else []
with open(here + "/properties.jsonl", "w") as fh:
    for pid in sorted(P):
        p = P[pid]
        d = dict(id=pid, title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"]))
        d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = p["hook"]
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        fh.write(json.dumps(d) + "\n")
checks, na = [], []
for pid in sorted(P):
    p = P[pid]
    if p["na"]:
        na.append(dict(property=pid, reason=" ".join(p["na"].split())))
        continue
    if not os.path.exists(here + "/checks/%s.py" % pid):
        print("no check yet:", pid)
        na.append(dict(property=pid, reason="no check built yet"))
        continue
    checks.append(dict(property=pid, quick_cmd="./check %s --tier quick" % pid,
                       thorough_cmd="./check %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique="bounded exhaustive model checking of the real interpreter against an independent reference model",
                       level="model_checking", level_note=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="VOSS_MC",
                    enable="vk/build.py compiles /repo's sources out of tree (into /verif/build) with -DVOSS_MC",
                    source_commits=HOOK_COMMITS),
         checks=checks, not_applicable=na)
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(here + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    print("run with python3-vt to validate against the schemas")
for pid, p in P.items():
    n = p["statement"].count(". ") + 1
    if n > 3:
        print("more than three sentences:", pid, n)
