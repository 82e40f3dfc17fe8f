"""Author's tool: systematic small changes of the code under test, to find what the checks do not see.

usage: mutate.py gen FILE [LO HI]          list the mutants of ciscoconfparse/FILE (between the lines) -> /tmp/mut/FILE.json
       mutate.py tests FILE [PROCS]        which of them survive the repository's tests?              -> /tmp/mut/FILE.alive.json
       mutate.py checks FILE [PROCS]       which of those survive the quick checks which run the line -> /tmp/mut/FILE.left.json
MUT_OPS=2 selects the second set of operators, MUT_DIR another directory for the files.  Coverage comes from tools/cover.py.  Everything runs on copies of /repo under /tmp/mut.
"""
import ast
import concurrent.futures
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.environ.get("MUT_DIR", "/tmp/mut")
BASE = os.environ.get("MUT_BASE", "/repo")  # a frozen copy, so that /repo can change meanwhile
BUDGET = int(os.environ.get("MUT_BUDGET", "100000"))  # seconds of checks per mutant
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SYM = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.bytes = src.encode()
        self.off = [0]
        for ln in self.bytes.split(b"\n"):
            self.off.append(self.off[-1] + len(ln) + 1)
        self.out = []
        self.skip = 0

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, a, b):
        return self.bytes[a:b].decode()

    def add(self, a, b, new, line, why):
        if not self.skip:
            self.out.append({"a": a, "b": b, "new": new, "line": line, "why": why, "old": self.seg(a, b)[:80]})

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__init_subclass__"):
            return
        self.body(n)
        self.generic_visit(n)

    def body(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return  # docstring
        if isinstance(n.value, ast.Call) and "logger" in ast.dump(n.value.func):
            return
        if isinstance(n.value, ast.Call):
            a, b = self.pos(n)
            self.add(a, b, "pass", n.lineno, "drop call")
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_Assign(self, n):
        names = [t.id for t in n.targets if isinstance(t, ast.Name)]
        if names and names[0] in ("error", "err", "err_txt", "message", "msg", "warning"):
            return
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        a, b = self.pos(n)
        self.add(a, b, "pass", n.lineno, "drop augmented assignment")
        self.generic_visit(n)

    def visit_If(self, n):
        dump = ast.dump(n.test)
        if "debug" in dump:
            for s in n.orelse:
                self.visit(s)
            return
        a, b = self.pos(n.test)
        if not isinstance(n.test, ast.Constant):
            self.add(a, b, "True", n.lineno, "if True")
            self.add(a, b, "False", n.lineno, "if False")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            la, lb = self.pos(n.left)
            ra, rb = self.pos(n.comparators[0])
            mid = self.seg(lb, ra)
            op = SYM[type(n.ops[0])]
            new = CMP[type(n.ops[0])]
            if mid.strip() == op:
                self.add(lb, ra, f" {new} ", n.lineno, f"{op} -> {new}")
                if op in ("<", "<=", ">", ">="):
                    pass
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for k in range(len(n.values)):
            a, b = self.pos(n.values[k])
            self.add(a, b, "True" if isinstance(n.op, ast.And) else "False", n.lineno, "drop operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            a, b = self.pos(n)
            oa, ob = self.pos(n.operand)
            self.add(a, b, "(" + self.seg(oa, ob) + ")", n.lineno, "drop not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "//"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "*"), ast.Mod: ("%", "//"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"),
              ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"), ast.Pow: ("**", "*")}
        if type(n.op) in sw:
            la, lb = self.pos(n.left)
            ra, rb = self.pos(n.right)
            o, w = sw[type(n.op)]
            if self.seg(lb, ra).strip() == o:
                if not (o == "+" and any(isinstance(x, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(x, "value", ""), str) for x in (n.left, n.right))):
                    self.add(lb, ra, f" {w} ", n.lineno, f"{o} -> {w}")
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.pos(n)
        v = n.value
        if isinstance(v, bool):
            self.add(a, b, str(not v), n.lineno, "flip")
        elif isinstance(v, int):
            self.add(a, b, str(v + 1), n.lineno, f"{v} -> {v + 1}")
            if v > 0:
                self.add(a, b, str(v - 1), n.lineno, f"{v} -> {v - 1}")
        elif isinstance(v, str):
            t = self.seg(a, b)
            if "\n" in t or len(t) > 200:
                return
            if re.search(r"[\^$+*\\?]", v) and len(v) > 2:
                for x, y in (("^", ""), ("$", ""), ("\\s+", "\\s"), ("\\s*", "\\s+"), ("\\s*", ""), ("\\S+", "\\S"), ("\\d+", "\\d"), (".*", ""), (".+", "."), ("+?", "+"), ("*?", "*"), ("\\d", "\\S"), ("?", "")):
                    for m in re.finditer(re.escape(x), t):
                        if x == "^" and t[m.start() - 1] == "[":
                            continue
                        self.add(a, b, t[:m.start()] + y + t[m.end():], n.lineno, f"regex: {x} -> {y} at {m.start()}")
            elif v != "" and v.strip() and len(v) < 30 and "{" not in v:
                self.add(a, b, '"mutant_"', n.lineno, "other string")
            elif v == "":
                self.add(a, b, '"mutant_"', n.lineno, "other string")

    def visit_JoinedStr(self, n):
        return

    def visit_Continue(self, n):
        a, b = self.pos(n)
        self.add(a, b, "break", n.lineno, "continue -> break")

    def visit_Break(self, n):
        a, b = self.pos(n)
        self.add(a, b, "continue", n.lineno, "break -> continue")

    def visit_Call(self, n):
        for k in n.keywords:
            if k.arg and k.arg not in ("debug", "groupdict", "reraise"):
                a, b = self.pos(k)
                e = b
                while self.bytes[e:e + 1] in (b" ", b"\n"):
                    e += 1
                if self.bytes[e:e + 1] == b",":
                    e += 1
                self.add(a, e, "", n.lineno, f"drop argument {k.arg}")
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lstrip", "rstrip", "lower", "copy") and not n.args:
            a, b = self.pos(n)
            va, vb = self.pos(n.func.value)
            self.add(a, b, self.seg(va, vb), n.lineno, f"drop .{n.func.attr}()")
        if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "set", "copy", "list", "abs", "reversed", "deepcopy") and len(n.args) == 1 and not n.keywords:
            a, b = self.pos(n)
            va, vb = self.pos(n.args[0])
            self.add(a, b, self.seg(va, vb), n.lineno, f"drop {n.func.id}()")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            a, b = self.pos(n.value)
        self.generic_visit(n)


class Gen2(Gen):
    """Further operators: identity for equality, elements left out of tables, limits on lengths, aliasing, letter case."""

    def visit_AugAssign(self, n):
        self.generic_visit(n)

    def visit_If(self, n):
        dump = ast.dump(n.test)
        if "debug" in dump:
            for s in n.orelse:
                self.visit(s)
            return
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and "logger" in ast.dump(n.value.func)):
            return
        self.generic_visit(n)

    def visit_Assign(self, n):
        names = [t.id for t in n.targets if isinstance(t, ast.Name)]
        if names and names[0] in ("error", "err", "err_txt", "message", "msg", "warning"):
            return
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            a, b = self.pos(n)
            self.add(a, b, "pass", n.lineno, "drop assignment")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            la, lb = self.pos(n.left)
            ra, rb = self.pos(n.comparators[0])
            mid = self.seg(lb, ra)
            cst = any(isinstance(x, ast.Constant) for x in (n.left, n.comparators[0]))
            if isinstance(n.ops[0], ast.Eq) and mid.strip() == "==" and not cst:
                self.add(lb, ra, " is ", n.lineno, "== -> is")
            if isinstance(n.ops[0], ast.NotEq) and mid.strip() == "!=" and not cst:
                self.add(lb, ra, " is not ", n.lineno, "!= -> is not")
            a, b = self.pos(n)
            if isinstance(n.ops[0], ast.Is) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value in (None, False):
                self.add(a, b, "(not " + self.seg(la, lb) + ")", n.lineno, "is None -> not")
            if isinstance(n.ops[0], ast.IsNot) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                self.add(a, b, "bool(" + self.seg(la, lb) + ")", n.lineno, "is not None -> bool")
            if isinstance(n.ops[0], ast.In) and isinstance(n.left, ast.Constant):
                self.add(a, b, f"({self.seg(la, lb)} == {self.seg(ra, rb)})", n.lineno, "in -> ==")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for k in range(len(n.values) - 1):
            a, b = self.pos(n.values[k])
            c, d = self.pos(n.values[k + 1])
            m = self.seg(b, c)
            w = "and" if isinstance(n.op, ast.And) else "or"
            if re.fullmatch(rf"[\s()]*\b{w}\b[\s()]*", m):
                self.add(b, c, m.replace(w, "or" if w == "and" else "and"), n.lineno, f"{w} swapped")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)

    def visit_BinOp(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        a, b = self.pos(n)
        self.add(a, b, "pass", n.lineno, "drop continue")

    def visit_Break(self, n):
        a, b = self.pos(n)
        self.add(a, b, "pass", n.lineno, "drop break")

    def elements(self, n, what):
        if len(n.elts) > 1 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for k, e in enumerate(n.elts):
                a, b = self.pos(e)
                if k + 1 < len(n.elts):
                    b = self.pos(n.elts[k + 1])[0]
                else:
                    a = self.pos(n.elts[k - 1])[1]
                self.add(a, b, "," if k + 1 == len(n.elts) == 2 and what == "tuple" else "", e.lineno, f"drop element of {what}")
        self.generic_visit(n)

    def visit_List(self, n):
        self.elements(n, "list")

    def visit_Tuple(self, n):
        self.elements(n, "tuple")

    def visit_Set(self, n):
        self.elements(n, "set")

    def visit_Dict(self, n):
        for k in range(len(n.keys) - 1):
            if n.keys[k] is not None and n.keys[k + 1] is not None:
                self.add(self.pos(n.keys[k])[0], self.pos(n.keys[k + 1])[0], "", n.keys[k].lineno, "drop entry")
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.pos(n)
        v = n.value
        if isinstance(v, str):
            t = self.seg(a, b)
            if len(t) > 3000 or len(v) < 3 or not re.search(r"[\^$+*\\?|]", v):
                return
            for x, ys in (("\\S+", ("\\w+", "\\S{1,20}", "[^-]+", ".+", "\\S*")), ("\\d+", ("\\d{1,3}", "\\d*")), (".+", ("\\S+", "[^-]+")), (".*", ("\\S*",)), ("\\w+", ("[a-z]+", "\\S+")),
                          ("\\s*$", ("$",)), ("(?:", ("(",)), ("A-Z", ("",)), ("a-z", ("",)), ("\\S.+", ("\\S+", ".+")), ("\\S.*", ("\\S+",)), ("+", ("*",)), ("|", ("",)), ("\\.", (".",)), ("\\b", ("",))):
                for m in re.finditer(re.escape(x), t):
                    if x == "+" and t[max(0, m.start() - 2):m.start()] in ("\\S", "\\d", "\\w"):
                        continue
                    for y in ys:
                        self.add(a, b, t[:m.start()] + y + t[m.end():], n.lineno, f"regex: {x} -> {y} at {m.start()}")

    def visit_For(self, n):
        a, b = self.pos(n.iter)
        s = self.seg(a, b)
        self.add(a, b, f"list({s})[::-1]", n.lineno, "loop reversed")
        self.add(a, b, f"list({s})[:12]", n.lineno, "loop limited to 12")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        a, b = self.pos(n.iter)
        s = self.seg(a, b)
        self.add(a, b, f"list({s})[::-1]", n.iter.lineno, "loop reversed")
        self.add(a, b, f"list({s})[:12]", n.iter.lineno, "loop limited to 12")
        for c in n.ifs:
            ca, cb = self.pos(c)
            self.add(ca, cb, "True", c.lineno, "comprehension if True")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        a, b = self.pos(n.slice)
        s = self.seg(a, b)
        if isinstance(n.ctx, ast.Load):
            if s == "0":
                self.add(a, b, "-1", n.lineno, "[0] -> [-1]")
            elif s == "-1":
                self.add(a, b, "0", n.lineno, "[-1] -> [0]")
            elif isinstance(n.slice, ast.Slice):
                ta, tb = self.pos(n)
                va, vb = self.pos(n.value)
                self.add(ta, tb, self.seg(va, vb), n.lineno, "drop slice")
        self.generic_visit(n)

    def visit_Call(self, n):
        a, b = self.pos(n)
        s = self.seg(a, b)
        fn = n.func
        if isinstance(fn, ast.Attribute):
            va, vb = self.pos(fn.value)
            v = self.seg(va, vb)
            rest = s[len(v):]
            attr = fn.attr
            if rest.startswith("." + attr):
                tail = rest[len(attr) + 1:]
                for x, ys in (("search", ("match",)), ("match", ("search",)), ("strip", ("lstrip", "rstrip")), ("split", ("rsplit",)), ("append", ("extend",)), ("extend", ("append",)), ("startswith", ("__contains__",)),
                              ("endswith", ("__contains__",)), ("findall", ("split",)), ("update", ("setdefault",)), ("groupdict", ("groups",)), ("lower", ("upper",)), ("insert", ("__setitem__",))):
                    if attr == x:
                        for y in ys:
                            self.add(a, b, f"{v}.{y}{tail}", n.lineno, f".{x} -> .{y}")
                if attr == "escape":
                    ea, eb = self.pos(n.args[0])
                    self.add(a, b, self.seg(ea, eb), n.lineno, "drop escape")
                if attr in ("search", "match", "compile") and v == "re" and len(n.args) < 3 and not n.keywords:
                    self.add(a, b, s[:-1].rstrip().rstrip(",") + ", flags=re.I)", n.lineno, "letter case")
                if attr == "split" and not n.args:
                    self.add(a, b, f"{v}.split(' ')", n.lineno, "split blanks")
                if attr == "split" and n.args:
                    self.add(a, b, s[:-1].rstrip().rstrip(",") + ", 1)", n.lineno, "split once")
                if attr == "sort":
                    self.add(a, b, "None", n.lineno, "drop sort")
                if attr == "get" and len(n.args) == 1:
                    self.add(a, b, f"{v}[{self.seg(*self.pos(n.args[0]))}]", n.lineno, "get -> []")
        elif isinstance(fn, ast.Name):
            sw = {"any": "all", "all": "any", "max": "min", "min": "max", "len": None, "int": None, "str": None, "bool": None, "tuple": None, "isinstance": None, "sorted": "list"}
            if fn.id in sw:
                if sw[fn.id]:
                    self.add(a, b, sw[fn.id] + "(" + (self.seg(*self.pos(n.args[0])) if fn.id == "sorted" else s[len(fn.id):].strip()[1:-1]) + ")", n.lineno, f"{fn.id} -> {sw[fn.id]}")
                elif fn.id in ("int", "str", "bool", "tuple") and len(n.args) == 1:
                    self.add(a, b, self.seg(*self.pos(n.args[0])), n.lineno, f"drop {fn.id}()")
                elif fn.id == "isinstance":
                    self.add(a, b, "False", n.lineno, "isinstance False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        a, b = self.pos(n)
        self.add(a, b, self.seg(*self.pos(n.body)), n.lineno, "conditional: first")
        self.add(a, b, self.seg(*self.pos(n.orelse)), n.lineno, "conditional: second")
        self.generic_visit(n)


def gen(f, lo=0, hi=10 ** 9):
    src = open(f"{BASE}/ciscoconfparse/{f}").read()
    g = (Gen2 if os.environ.get("MUT_OPS") == "2" else Gen)(src)
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            n.decorator_list = []
            n.args.defaults = list(n.args.defaults)
            n.returns = None
            for a in n.args.args + n.args.kwonlyargs:
                a.annotation = None
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            g.visit(n)
    seen, out = set(), []
    for m in g.out:
        if not lo <= m["line"] <= hi:
            continue
        k = (m["a"], m["b"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        new = g.bytes[:m["a"]] + m["new"].encode() + g.bytes[m["b"]:]
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        m["id"] = len(out)
        out.append(m)
    os.makedirs(D, exist_ok=True)
    json.dump(out, open(f"{D}/{f}.json", "w"))
    print(f, len(out), "mutants")


def workers(n):
    q = queue.Queue()
    for i in range(n):
        r = f"{D}/w{os.getpid()}_{i}/repo"
        shutil.rmtree(os.path.dirname(r), True)
        os.makedirs(os.path.dirname(r))
        subprocess.check_call(["cp", "-a", BASE, r])
        q.put(r)
    return q


def apply(r, f, m):
    b = open(f"{BASE}/ciscoconfparse/{f}", "rb").read()
    open(f"{r}/ciscoconfparse/{f}", "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])


def restore(r, f):
    shutil.copy(f"{BASE}/ciscoconfparse/{f}", f"{r}/ciscoconfparse/{f}")


def run(cmd, cwd, env, timeout):
    e = dict(os.environ, **env)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"


BAD_DOC = None


def survives(r, f, m):
    apply(r, f, m)
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": r}
    base = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"]
    rc, o = run(base + sorted(os.path.join("/", r, "tests", t) for t in os.listdir(r + "/tests") if re.match(r"test_.*py$", t)), r + "/tests", env, 120)
    if rc == 0:
        rc, o = run(base + ["--ignore=ciscoconfparse/models_all.py", "--doctest-modules", "ciscoconfparse"] + BAD_DOC, r, env, 120)
    restore(r, f)
    return rc == 0


def doc_fails():
    """Doctests which fail on the unchanged tree (they are not stable)."""
    rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--tb=no", "-rf", "--ignore=ciscoconfparse/models_all.py", "--doctest-modules", "ciscoconfparse"], BASE,
                {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": BASE}, 300)
    out = []
    for x in re.findall(r"^(?:FAILED|ERROR) (\S+)", o, re.M):
        out += ["--deselect", x]
    return out


def tests(f, procs):
    global BAD_DOC
    BAD_DOC = doc_fails()
    ms = json.load(open(f"{D}/{f}.json"))
    q = workers(procs)
    alive, done, t0 = [], 0, time.time()

    def job(m):
        r = q.get()
        try:
            return m, survives(r, f, m)
        finally:
            q.put(r)
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        for m, ok in ex.map(job, ms):
            done += 1
            if ok:
                alive.append(m)
            if done % 100 == 0:
                print(done, "of", len(ms), "alive", len(alive), int(time.time() - t0), "s", flush=True)
                json.dump(alive, open(f"{D}/{f}.alive.json", "w"))
    json.dump(alive, open(f"{D}/{f}.alive.json", "w"))
    clean(q)
    print("alive", len(alive), "of", len(ms))


def clean(q):
    while not q.empty():
        shutil.rmtree(os.path.dirname(q.get()), True)


def checks(f, procs):
    ms = json.load(open(f"{D}/{f}.alive.json"))
    cover, cost = {}, {}
    for n in os.listdir("/tmp/cover"):
        if n.endswith(".json"):
            c = n[:-5]
            cover[c] = set(json.load(open("/tmp/cover/" + n)).get(f, []))
            try:
                cost[c] = json.load(open(f"/tmp/cover/ev/{c}.json"))["wall_s"]
            except OSError:
                cost[c] = 99
    q = workers(procs)
    left, none, kill = [], [], {}
    src = open(f"{BASE}/ciscoconfparse/{f}").read()
    spans = {}
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            body = getattr(n, "body", None)
            end = body[0].lineno - 1 if body and not isinstance(n, ast.Try) else n.end_lineno
            for k in range(n.lineno, max(n.lineno, end) + 1):
                spans[k] = (n.lineno, max(n.lineno, end))

    def job(m):
        a, b = spans.get(m["line"], (m["line"], m["line"]))
        cs = sorted([c for c in cover if any(k in cover[c] for k in range(a, b + 1))], key=lambda c: cost[c])
        if not cs:
            return m, "nocover"
        r = q.get()
        try:
            apply(r, f, m)
            start = time.time()
            for c in cs:
                if time.time() - start > BUDGET:
                    return m, ""
                rc, o = run([HERE + "/run", c, "--tier", "quick"], HERE, {"CCP_REPO": r, "MC_EVIDENCE": r + "/../ev", "MC_MAX_VIOLATIONS": "1", "MC_CASE_SECONDS": "4", "MC_PROCS": os.environ.get("MUT_MC_PROCS", "3")}, 900)
                if rc != 0:
                    return m, c
            return m, ""
        finally:
            restore(r, f)
            q.put(r)
    done, t0 = 0, time.time()
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        for fu in concurrent.futures.as_completed([ex.submit(job, m) for m in ms]):
            m, c = fu.result()
            done += 1
            m["by"] = c
            if c == "nocover":
                none.append(m)
            elif c == "":
                left.append(m)
            else:
                kill[c] = kill.get(c, 0) + 1
            if done % 20 == 0 or done == len(ms):
                print(done, "of", len(ms), "left", len(left), "not covered", len(none), int(time.time() - t0), "s", flush=True)
                json.dump({"left": sorted(left, key=lambda m: m["line"]), "none": sorted(none, key=lambda m: m["line"]), "killed": kill}, open(f"{D}/{f}.left.json", "w"), indent=0)
    clean(q)


if __name__ == "__main__":
    cmd, f = sys.argv[1:3]
    rest = [int(x) for x in sys.argv[3:]]
    {"gen": lambda: gen(f, *rest), "tests": lambda: tests(f, *(rest or [6])), "checks": lambda: checks(f, *(rest or [3]))}[cmd]()
