"""Author's tool: makes and confirms a planted bug in a scratch copy of /repo (never in /repo itself).

usage: python3 tools/plant.py make SPEC.py     (SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)])
       python3 tools/plant.py check ID...      (confirm: applies, tests pass, demo fails with and passes without; is it caught?)
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
BASE = os.environ.get("PLANT_BASE", "/repo")


def sh(cmd, cwd=None, env=None, timeout=1800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def copy():
    d = tempfile.mkdtemp(prefix="plant_")
    r = os.path.join(d, "repo")
    sh(f"cp -a {BASE} {r}")
    return d, r


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    ids = []
    for b in ns["BUGS"]:
        d, r = copy()
        try:
            edits = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
            for f, eds in edits.items():
                path = os.path.join(r, "ciscoconfparse", f)
                s = open(path).read()
                for old, new, *nth in eds:  # a third entry: which occurrence
                    assert nth or s.count(old) == 1, (b["id"], s.count(old), old)
                    parts = s.split(old)
                    n = nth[0] if nth else 1
                    s = old.join(parts[:n]) + new + old.join(parts[n:])
                open(path, "w").write(s)
            _, diff = sh("git diff", cwd=r)
            for f in edits:  # a planted bug has to change lines of the original repository
                root = sh(["git", "log", "--format=%H", "--grep=^fix:", "--reverse"], cwd=r)[1].split()
                base = sh(["git", "rev-parse", root[0] + "^"], cwd=r)[1].strip()
                orig = set(sh(["git", "show", f"{base}:ciscoconfparse/{f}"], cwd=r)[1].split("\n"))
                gone = [x[1:] for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
                if not any(x in orig for x in gone):
                    print("NOT ORIGINAL", b["id"], gone[:2])
            out = os.path.join(SEED, b["id"])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(
                "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter('ignore')\n"
                "from loguru import logger\nlogger.remove()\n" + b["demo"].strip() + "\nprint('ok')\n")
            open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            ids.append(b["id"])
        finally:
            shutil.rmtree(d, True)
    return ids


def check(bid, run_check=True):
    d, r = copy()
    out = os.path.join(SEED, bid)
    res = {"id": bid}
    try:
        meta = json.load(open(os.path.join(out, "meta.json")))
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], cwd=r)
        res["demo_clean"] = rc == 0
        if rc:
            res["demo_clean_out"] = o[-400:]
        rc, o = sh(["git", "apply", os.path.join(out, "patch.diff")], cwd=r)
        res["applies"] = rc == 0
        if rc:
            res["apply_out"] = o[-300:]
            return res
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], cwd=r)
        res["demo_bug"] = rc != 0
        for n in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + n).read().replace("/repo", r)
            open(os.path.join(d, n), "w").write(s)
        rc, o = sh(["bash", os.path.join(d, "build.sh")])
        res["builds"] = rc == 0
        sh(["bash", os.path.join(d, "test.sh"), os.path.join(d, "out.json")])
        got = set(json.load(open(os.path.join(d, "out.json")))["passed"])
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)
        res["tests"] = not miss
        if miss:
            res["missing"] = miss[:4]
        if run_check:
            rc, o = sh([os.path.join(HERE, "run"), meta["property"], "--tier", "quick"], cwd=HERE, env={"CCP_REPO": r, "MC_EVIDENCE": os.path.join(d, "ev")})
            res["caught"] = rc == 1 and f"VIOLATION property={meta['property']}" in o
            res["rc"] = rc
            m = re.search(r"^  \[.*", o, re.M)
            res["how"] = m.group(0)[:160] if m else o[-200:]
    finally:
        shutil.rmtree(d, True)
    return res


if __name__ == "__main__":
    ids = make(sys.argv[2]) if sys.argv[1] == "make" else sys.argv[2:] or sorted(os.listdir(SEED))
    RES = os.path.join(HERE, "tools", "plant_results.json")
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(check, ids):
            bad = not all(r.get(k) for k in ("demo_clean", "applies", "demo_bug", "builds", "tests"))
            old = json.load(open(RES)) if os.path.exists(RES) else {}
            if not bad:
                prev = old.get(r["id"], {})
                note = prev.get("note") or ("missed at first; the check was strengthened" if prev and not prev.get("caught") and r.get("caught") else "")
                old[r["id"]] = {"caught": bool(r.get("caught")), "note": note}
                json.dump(old, open(RES, "w"), indent=1, sort_keys=True)
            print(("BAD    " if bad else "caught " if r.get("caught") else "MISSED "), json.dumps(r), flush=True)
