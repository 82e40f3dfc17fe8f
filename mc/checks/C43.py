"""Running a command: its exit status, output and error output, with the words, directory, environment and time limit it was given."""
import itertools
import os
import shlex
import shutil
import tempfile

ID = "C43"
FILES = ["ccp_util.py"]
ASSUMPTIONS = ["a POSIX /bin/sh; commands only write into a scratch directory which the check makes and removes", "commands are strings (others are refused by the standard library)"]
WORDS = ["a", "b c", "", "'", '"', "$X", "*", "\\", "{0} %s", "é", "#", ";", "-n"]
ENVS = [None, {}, {"X": "1"}, {"X": "a b", "Y": ""}, {"X": 7, "Y": 1.5}, {"PATH": "/nowhere", "X": "$Y"}]
BADENVS = [["X", "1"], "X=1", 7, {"X": None}, {"X": [1]}, {1: "X"}, {"X": b"1"}]
BOUNDS = {
    "quick": f"every command of up to 2 of {len(WORDS)} words; 8 exit statuses x output x error output; {len(ENVS)} environments x 3 directories x with and without a shell; {len(BADENVS)} wrong environments; time limits; missing programs",
    "thorough": "up to 3 words",
}


def shards(tier):
    return [{"k": "words", "first": i} for i in range(-1, len(WORDS))] + [{"k": "exit"}, {"k": "env"}, {"k": "other"}]


def cases(sh, tier):
    if sh["k"] == "words":
        for n in range(2 if tier == "quick" else 3) if sh["first"] >= 0 else (0,):
            for rest in itertools.product(range(len(WORDS)), repeat=n):
                for shell in (False, True):
                    yield {"k": "words", "w": ([sh["first"]] if sh["first"] >= 0 else []) + list(rest), "shell": shell}
    elif sh["k"] == "exit":
        for code, out, err, shell in itertools.product((0, 1, 2, 3, 99, 126, 255, "kill"), ("", "x", "a\nb\n", "é"), ("", "y", "c\nd\n"), (False, True)):
            yield {"k": "exit", "code": code, "out": out, "err": err, "shell": shell}
    elif sh["k"] == "env":
        for e, cwd, shell in itertools.product(range(len(ENVS)), (None, "sub", "."), (False, True)):
            yield {"k": "env", "e": e, "cwd": cwd, "shell": shell}
        for e in range(len(BADENVS)):
            yield {"k": "badenv", "e": e}
    else:
        for t, s in itertools.product((None, .1, 30), (0, 5)):
            for shell in (False, True):
                if t is not None or not s:
                    yield {"k": "time", "t": t, "s": s, "shell": shell}
        for shell in (False, True):
            yield {"k": "missing", "shell": shell}
        for enc, text in (("utf-8", "é"), ("latin-1", "é"), ("utf-16-le", "é")):
            yield {"k": "enc", "enc": enc, "text": text}


def run(*a, **kw):
    from ciscoconfparse.ccp_util import run_this_posix_command
    return run_this_posix_command(*a, **kw)


def check(case, R):
    R.state(str(case))
    R.step()
    R.trace()
    k = case["k"]
    what = f"{case}:"
    base = tempfile.mkdtemp(prefix="c43-")
    try:
        if k == "words":
            words = [WORDS[i] for i in case["w"]]
            cmd = shlex.join(["/usr/bin/printf", "<%s>", *words])
            R.eq("words", run(cmd, shell=case["shell"], encoding="utf-8"), (0, "".join(f"<{w}>" for w in words) or "<>", ""), f"{what} {cmd}")
            R.outcome(len(words))
        elif k == "exit":
            body = f"printf %s {shlex.quote(case['out'])}; printf %s {shlex.quote(case['err'])} >&2; " + ("kill -9 $$" if case["code"] == "kill" else f"exit {case['code']}")
            cmd = body if case["shell"] else shlex.join(["/bin/sh", "-c", body])
            R.eq("exit", run(cmd, shell=case["shell"], encoding="utf-8"), (-9 if case["code"] == "kill" else case["code"], case["out"], case["err"]), f"{what} {cmd}")
            R.outcome(case["code"])
        elif k == "env":
            os.mkdir(os.path.join(base, "sub"))
            env, cwd = ENVS[case["e"]], case["cwd"] and os.path.join(base, case["cwd"])
            body = 'printf "%s|%s|%s|" "$X" "$Y" "${HOME+home}"; /bin/pwd'
            cmd = body if case["shell"] else shlex.join(["/bin/sh", "-c", body])
            saved = {n: os.environ.get(n) for n in ("X", "Y", "HOME")}
            os.environ.update(X="outer", HOME="/root")
            os.environ.pop("Y", None)
            try:
                got = run(cmd, shell=case["shell"], cwd=cwd, env=env and dict(env) if env else env, encoding="utf-8")
            finally:
                for n, v in saved.items():
                    os.environ.pop(n, None)
                    if v is not None:
                        os.environ[n] = v
            e = {"X": "outer", "HOME": "/root"} if env is None else env
            want = f"{e.get('X', '')}|{e.get('Y', '')}|{'home' if 'HOME' in e else ''}|{os.path.realpath(cwd or os.getcwd())}\n"
            R.eq("env", got, (0, want, ""), f"{what} environment {env}, X, Y, HOME and directory:")
            R.outcome(case["e"])
        elif k == "badenv":
            mark = os.path.join(base, "ran")
            try:
                got = run("/usr/bin/touch " + mark, env=BADENVS[case["e"]])
            except Exception as e:
                got = None
                R.outcome(type(e).__name__)
            R.eq("bad env", (got, os.path.exists(mark)), (None, False), f"{what} env={BADENVS[case['e']]!r} is refused, and nothing runs:")
        elif k == "time":
            body = f"exec /bin/sleep {case['s']}"
            cmd = body if case["shell"] else f"/bin/sleep {case['s']}"
            try:
                got = run(cmd, timeout=case["t"], shell=case["shell"])
            except Exception as e:
                got = type(e).__name__
            slow = case["t"] is not None and case["s"] > case["t"]
            R.eq("timeout", got, "TimeoutExpired" if slow else (0, "", ""), f"{what}")
            R.outcome(slow)
        elif k == "missing":
            try:
                got = run("/nowhere/prog x", shell=case["shell"])[0]
            except FileNotFoundError:
                got = 127
            R.eq("missing", got, 127, f"{what} status of a missing program:")
            R.outcome("missing")
        else:
            f = os.path.join(base, "f")
            with open(f, "wb") as fh:
                fh.write(case["text"].encode(case["enc"]))
            R.eq("encoding", run("/bin/cat f", cwd=base, encoding=case["enc"]), (0, case["text"], ""), what)
            R.outcome(case["enc"])
    finally:
        shutil.rmtree(base)
