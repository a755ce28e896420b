#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development aid; no check runs this)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, C = [], []
# properties whose check exists
DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29".split()

def prop(id, title, statement, over, text, why, files, mech, observe, level_note, claimed=True):
    if id not in DONE:
        return
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
    if claimed:
        C.append({"property": id, "quick_cmd": f"bash checks/run.sh {id}",
                  "thorough_cmd": f"bash checks/run.sh {id}",
                  "technique": "property-based testing (proptest generators and shrinking in a purpose-built harness)",
                  "level": "exploration", "level_note": level_note,
                  "evidence_file": f"evidence/{id}.json"})

exec(open(os.path.join(ROOT, "tools", "properties_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash checks/run.sh build", "checks": C,
     "notes": "No hooks: everything is observed through the public library interface and the command line program. checks/run.sh builds harness/ against /repo's working tree."}
if NA:
    m["not_applicable"] = NA
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(C), "checks")
