#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/config.py (single source)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks.config import CHECKS
from checks.na import NA
rows, checks = [], []
def row(pid, c):
    return dict(id=pid, title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["text"]), why_tests_cant=c["why"],
                anchors=dict(files=c["files"], mechanism=c["mech"], **({"state": c["state"]} if c.get("state") else {}), **({"observe_at": c["observe"]} if c.get("observe") else {}), hook_needed=None))
for pid, c in CHECKS.items():
    assert len(c["title"]) <= 80, pid
    assert c["statement"].count(". ") <= 2, pid
    rows.append(row(pid, c))
    b = "; ".join(f'{h["name"]}: {h["bounds"]}' for h in c["harnesses"])
    checks.append(dict(property=pid, quick_cmd=f"python3 run.py {pid} --tier quick", thorough_cmd=f"python3 run.py {pid} --tier thorough",
                       technique="symbolic execution of the real code (LLVM IR instrumented from /repo's sources) with Z3 deciding path feasibility and assertions; counterexamples replayed on the plain build",
                       level="model_checking", level_note=("bounded: " + b + (". " + c["note"] if c.get("note") else "") + ". Assumptions: " + ("; ".join(c["assumptions"]) or "none beyond the bounds"))[:3900]))
for pid, c in NA.items():
    rows.append(row(pid, c))
with open(HERE + "/properties.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="MQT_VERIF_HOOKS", enable="no hooks were needed: the checks instrument /repo's sources while compiling them (guard unused)", source_commits=[]),
         checks=checks, not_applicable=[dict(property=p, reason=c["reason"]) for p, c in NA.items()])
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for r in rows:
        jsonschema.validate(r, s)
    print("valid:", len(checks), "checks", len(NA), "not applicable")
except ImportError:
    print("jsonschema missing (use python3-vt)")
d = open(HERE + "/DESIGN.md").read()
a, b = d.index("<!-- generated by gen.py -->"), d.index("<!-- end -->")
t = "<!-- generated by gen.py -->\n\n"
for pid, c in CHECKS.items():
    t += f"### {pid} {c['title']}\n\n{c['statement']}\n\n*Decided over* {c['text']}. *Why tests cannot:* {c['why']}.\n\n"
    for h in c["harnesses"]:
        t += f"* `{h['name']}` ({', '.join(c['src'])}): {h['bounds']}" + (" (thorough only)" if h.get("mintier") else "") + "\n"
    if c.get("note"): t += f"\nOutside: {c['note']}.\n"
    if c["assumptions"]: t += "\nAssumptions: " + "; ".join(c["assumptions"]) + ".\n"
    t += "\n"
open(HERE + "/DESIGN.md", "w").write(d[:a] + t + d[b:])
