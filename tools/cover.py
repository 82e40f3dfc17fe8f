"""Author's tool: which lines of /repo/ciscoconfparse does each quick check execute?   usage: python3 tools/cover.py [ID...]
writes /tmp/cover/<ID>.json {file: [lines]}; lines at import time are not counted."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import core, env  # noqa: E402

OUT = "/tmp/cover"


def one(prop):
    import multiprocessing  # noqa: F401

    mod = core.get_module(prop)
    env.load()
    mon = sys.monitoring
    hits = set()
    root = os.path.join(os.path.realpath(env.REPO), "ciscoconfparse") + os.sep
    tmp = os.path.join(OUT, prop + ".d")
    os.makedirs(tmp, exist_ok=True)

    def line(code, n):
        if code.co_filename.startswith(root):
            hits.add((code.co_filename[len(root):], n))
        return mon.DISABLE

    mon.use_tool_id(3, "cover")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    orig = core._worker

    def worker(shard):
        r = orig(shard)
        with open(os.path.join(tmp, str(os.getpid())), "w") as fh:
            json.dump(sorted(hits), fh)
        return r

    core._worker = worker
    worker.__module__ = "mc.core"
    worker.__qualname__ = worker.__name__ = "_worker"
    os.environ["MC_EVIDENCE"] = "/tmp/cover/ev"
    core.main(mod, "quick")
    allh = set(hits)
    for f in os.listdir(tmp):
        allh |= {tuple(x) for x in json.load(open(os.path.join(tmp, f)))}
    res = {}
    for f, n in sorted(allh):
        res.setdefault(f, []).append(n)
    json.dump(res, open(os.path.join(OUT, prop + ".json"), "w"))


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    if len(sys.argv) == 2:
        one(sys.argv[1])
    else:
        for p in sys.argv[1:]:
            os.system(f"/opt/venv/bin/python {__file__} {p}")
