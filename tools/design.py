"""Assembles DESIGN.md from its parts, the fixed/known findings and the recorded results of the planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")
out = [open(os.path.join(T, "design_head.md")).read(), open(os.path.join(T, "design_props.md")).read(), "\n## Findings\n\n### Repaired (`fix:` commits)\n"]
known = []
for l in open(os.path.join(HERE, "known_findings.jsonl")):
    d = json.loads(l)
    if d["status"] == "fixed":
        out.append(f"* {d['property']} `{d['commit']}` {d['what']}")
    else:
        known.append(d)
out.append("\n### Known findings, not repaired\n")
out += [f"* {d['property']}: {d['what']}" for d in known] or ["none"]
out.append("\n" + open(os.path.join(T, "design_tail.md")).read())
out.append("\n## Planted bugs\n\nEach was confirmed in a scratch copy with `tools/plant.py`: it applies, builds, passes the 501 stable tests, its demo fails with it and passes without. "
           "\"caught\" is the quick check of its property.\n\n| bug | property | needs | result |\n|---|---|---|---|")
res = json.load(open(os.path.join(T, "plant_results.json")))
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    r = res.get(b, {})
    out.append(f"| {b} | {m['property']} | {m['needs']} | {'caught' if r.get('caught') else 'not caught' if r else 'not run'}{' - ' + r['note'] if r.get('note') else ''} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
