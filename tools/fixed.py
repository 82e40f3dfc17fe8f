"""Rewrites the "fixed" entries of known_findings.jsonl from the fix: commits of the repository (run by hand)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(HERE, "known_findings.jsonl")
FIX = dict(line.rstrip("\n").split("\t", 2)[0:1] + [line.rstrip("\n").split("\t", 2)[1:]] for line in open(os.path.join(HERE, "tools", "fixed.tsv")) if line.strip())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
keep = []
if os.path.exists(PATH):
    keep = [l for l in open(PATH).read().splitlines() if l.strip() and json.loads(l).get("status") == "known"]
out = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    prop, what = FIX.get(s[5:], (None, None))
    if prop is None:
        print("no entry for", s)
        continue
    out.append(json.dumps({"status": "fixed", "property": prop, "commit": h, "what": what, "line": f"fixed: property={prop} {h} {what}"}))
open(PATH, "w").write("\n".join(out + keep) + "\n")
print(len(out), "fixed,", len(keep), "known")
