#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/bounds.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
TECH = "SMT-based symbolic execution of the Go SSA of the real functions (gosym + z3), counterexamples replayed natively"
TRUST = ("Holds for every value of the symbolic inputs within the stated bounds; trusts the SSA builder, the executor's "
         "semantics and library models (cross-checked on this run by replaying one native witness per sampled path) and the SMT solver.")
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + [n["p"] for n in NA]:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "model_checking",
                 "level_note": "Bounds: " + p["bounds"] + " " + TRUST} for p in PROPS],
     "not_applicable": [{"property": n["p"]["id"], "reason": n["reason"]} for n in NA],
     "notes": "No hooks in /repo: harnesses enter through a go build overlay. See DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
json.dump({p["id"]: p["bounds"] for p in PROPS}, open(root + "/harness/bounds.json", "w"), indent=1)
import jsonschema
s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, s)
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(root + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
print(len(PROPS), "claimed", len(NA), "not applicable")
# DESIGN.md from DESIGN.in.md
import glob, subprocess
t = open(here + "/DESIGN.in.md").read()
s = "## Properties\n"
for p in PROPS:
    s += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided by:* {p.get('how') or 'symbolic execution of the functions anchored below under the harness `Verif'+p['id']+'_*`; the harness states the specification independently of the implementation.'}\n\n*Encoded:* {'; '.join(a+' ('+b+')' for a, b in p['mech'])}. *Bounds:* {p['bounds']} *Tests reach:* {p['tests']}\n"
if NA:
    s += "\n### Not applicable\n"
    for n in NA:
        s += f"\n* {n['p']['id']} {n['p']['title']}: {n['reason']}\n"
f = "".join("* " + json.loads(l)["what"] + "\n" for l in open(root + "/known_findings.jsonl") if l.strip())
res = {}
if os.path.exists(here + "/seed_results.json"): res = json.load(open(here + "/seed_results.json"))
b = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; mm = json.load(open(d))
    b += f"| {i} | {mm['property']} | {mm['needs']} ({mm['what_it_breaks']}) | {res.get(i, '?')} |\n"
from props import LIMITS
t = t.replace("@@PROPS@@", s).replace("@@FIXES@@", f).replace("@@SEEDS@@", b).replace("@@LIMITS@@", "".join("* " + x + "\n" for x in LIMITS))
open(root + "/DESIGN.md", "w").write(t)
