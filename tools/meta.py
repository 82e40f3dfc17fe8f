"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep them in step).
usage: python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "ciscoconfparse/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text},
               "why_tests_cant": why,
               "anchors": {"files": [C + f for f in files],
                           "mechanism": [{"name": n, "where": C + w} for n, w in mech],
                           "observe_at": observe or ["public Python API"], "hook_needed": None}}, note))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

assert len({p[0]["id"] for p in P}) == len(P)
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        fh.write(json.dumps(d) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./run --selfcheck",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA],
    "notes": "No hooks: the checks import the code straight from /repo's working tree. See DESIGN.md.",
}
na = {p for p, _ in NA}
for d, note in P:
    if d["id"] in na:
        continue
    man["checks"].append({
        "property": d["id"],
        "quick_cmd": f"./run {d['id']} --tier quick",
        "thorough_cmd": f"./run {d['id']} --tier thorough",
        "evidence_file": f"evidence/{d['id']}.json",
        "technique": "bounded exhaustive enumeration of inputs/operation histories on the real code, every step compared with a reference model",
        "level": "model_checking",
        "level_note": note,
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
