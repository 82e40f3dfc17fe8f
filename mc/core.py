"""Bounded exhaustive exploration of the real code against reference models.

A check module (mc/checks/<ID>.py) provides

    ID, TITLE, BOUNDS (dict tier -> text), ASSUMPTIONS (list of str)
    shards(tier)            -> list of JSON-able shard descriptors, simplest first
    cases(shard, tier)      -> iterable of JSON-able cases, simplest first (the *complete* space of the shard)
    check(case, R)          -> runs the real code on the case, compares it with the reference model, and
                               calls R.fail(tag, message) on a disagreement

R also counts: R.state(key) (a distinct model state/configuration), R.step(n) (operations of the real code
compared with the model), R.trace() (a complete model behaviour replayed on the implementation).
An exception that escapes check() is a violation too ("exception" tag): the reference models say, for every
call, whether it may raise.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from mc import env

MAX_VIOLATIONS = int(os.environ.get("MC_MAX_VIOLATIONS", "5"))
CASE_CPU_SECONDS = float(os.environ.get("MC_CASE_SECONDS", "20"))


class Hang(BaseException):
    pass


class Failure(Exception):
    def __init__(self, tag, msg):
        super().__init__(f"{tag}: {msg}")
        self.tag, self.msg = tag, msg


def canon(obj):
    return json.dumps(obj, sort_keys=True, ensure_ascii=True, default=repr)


def key64(obj):
    if not isinstance(obj, str):
        obj = repr(obj)
    return int.from_bytes(hashlib.blake2b(obj.encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Recorder:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.failures = []  # (case, tag, msg)
        self.samples = []
        self.case = None

    def state(self, key):
        self.states.add(key64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(key64(key))

    def fail(self, tag, msg):
        raise Failure(tag, msg)

    def eq(self, tag, got, want, what=""):
        self.transitions += 1
        if got != want:
            raise Failure(tag, f"{what} got={got!r} want={want!r}")

    def true(self, tag, cond, what=""):
        self.transitions += 1
        if not cond:
            raise Failure(tag, what)


def _on_alarm(signum, frame):
    raise Hang()


def run_case(mod, case, R):
    R.case = case
    R.cases += 1
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS, 5.0)
    try:
        mod.check(case, R)
    except Failure as f:
        R.failures.append((case, f.tag, f.msg))
        return False
    except Hang:
        R.failures.append((case, "hang", f"no answer after {CASE_CPU_SECONDS}s of CPU time"))
        return False
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # includes SystemExit raised by the code under test
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(t.filename)}:{t.lineno}:{t.name}" for t in tb[-4:])
        R.failures.append((case, "exception", f"{type(e).__name__}: {str(e)[:300]} [{where}]"))
        return False
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return True


_MOD = None
_SCRATCH = None
_TIER = None
_KNOWN = None


def _worker(shard):
    R = Recorder()
    n_unknown = 0
    for case in _MOD.cases(shard, _TIER):
        if len(R.samples) < 1:
            R.samples.append(case)
        if not run_case(_MOD, case, R):
            c, tag, msg = R.failures[-1]
            if (canon(c), tag) not in _KNOWN:
                n_unknown += 1
                if n_unknown >= MAX_VIOLATIONS:
                    break
    fin = getattr(_MOD, "finish_shard", None)
    if fin:
        fin(shard, R)
    return (R.states, R.outcomes, R.transitions, R.traces, R.cases, R.failures, R.samples)


def scratch():
    """A directory of this run (removed when the run ends); one subdirectory per process."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="mc_scratch_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    d = os.path.join(_SCRATCH, str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def drop_scratch():
    global _SCRATCH
    if _SCRATCH is not None:
        shutil.rmtree(_SCRATCH, True)
        _SCRATCH = None


def load_known(prop):
    path = os.path.join(env.VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == prop:
                out[(canon(d["case"]), d["tag"])] = d
    return out


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)


def main(mod, tier):
    global _MOD, _TIER, _KNOWN
    t0 = time.time()
    prop = mod.ID
    env.load()
    _MOD, _TIER, _KNOWN = mod, tier, load_known(prop)
    if getattr(mod, "FILES", False):
        scratch()  # made before the workers are forked, so that they share it and this process removes it
        try:
            return explore(mod, tier, prop, t0)
        finally:
            drop_scratch()
    return explore(mod, tier, prop, t0)


def explore(mod, tier, prop, t0):
    if hasattr(mod, "setup"):
        mod.setup(tier)
    shards = list(mod.shards(tier))
    procs = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1, max(1, len(shards)))
    states, outcomes, samples = set(), set(), []
    transitions = traces = ncases = 0
    failures, known_hit = [], {}
    ctx = multiprocessing.get_context("fork")
    capped = False
    with ctx.Pool(procs, initializer=limit_memory) as pool:
        for (s, o, tr, tc, nc, fl, sm) in pool.imap_unordered(_worker, shards, chunksize=1):
            states |= s
            outcomes |= o
            transitions += tr
            traces += tc
            ncases += nc
            if len(samples) < 6:
                samples.extend(sm[: 6 - len(samples)])
            for (case, tag, msg) in fl:
                k = (canon(case), tag)
                if k in _KNOWN:
                    known_hit[k] = (_KNOWN[k], msg)
                else:
                    failures.append((case, tag, msg))
            if len(failures) >= MAX_VIOLATIONS:
                capped = True
                pool.terminate()
                break
    wall = time.time() - t0
    for k, (d, msg) in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    failures.sort(key=lambda f: (len(canon(f[0])), canon(f[0])))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "distinct_outcomes": len(outcomes),
            "shards": len(shards),
            "bounds": mod.BOUNDS.get(tier, mod.BOUNDS.get("quick", "")) if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            "rule": getattr(mod, "RULE", "every case of the bounded space is enumerated exactly once; a case is a distinct input or operation history"),
            "samples": samples[:6],
            "exhaustive": not capped,
            "binding": "every model state/trace is executed on the real code imported from the repository's working tree",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    evdir = os.environ.get("MC_EVIDENCE") or os.path.join(env.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
        fh.write("\n")
    print(f"{prop} tier={tier} cases={ncases} states={len(states)} transitions={transitions} traces={traces} "
          f"outcomes={len(outcomes)} known={len(known_hit)} violations={len(failures)} wall={wall:.1f}s")
    if failures:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (case, tag, msg) in enumerate(failures[:MAX_VIOLATIONS]):
            path = os.path.join(rdir, f"{prop}-{key64(canon(case) + tag):016x}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "case": case, "tag": tag, "message": msg,
                           "reproduce": f"/verif/run --replay {path}"}, fh, indent=1, default=repr)
                fh.write("\n")
            print(f"  [{tag}] {msg[:600]}")
            print(f"  case: {canon(case)[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if ncases == 0 or transitions == 0:
        print("harness error: nothing was explored")
        return 3
    return 0


def replay(path):
    d = json.load(open(path))
    mod = get_module(d["property"])
    env.load()
    if hasattr(mod, "setup"):
        mod.setup("quick")
    limit_memory()
    R = Recorder()
    try:
        ok = run_case(mod, d["case"], R)
    finally:
        drop_scratch()
    if ok:
        print("replay: the property holds on this case")
        return 0
    for case, tag, msg in R.failures:
        print(f"[{tag}] {msg}")
        print(f"VIOLATION property={d['property']} replay={path}")
    return 1


def get_module(prop):
    import importlib
    return importlib.import_module(f"mc.checks.{prop}")


def selfcheck():
    """setup_cmd: the code under test imports from the repository, and every registered check module loads."""
    mods = env.load()
    man = json.load(open(os.path.join(env.VERIF, "MANIFEST.json")))
    for c in man["checks"]:
        m = get_module(c["property"])
        assert m.ID == c["property"] and list(m.shards("quick"))
    print(f"setup ok: {len(man['checks'])} checks over {env.REPO}")
    return 0
