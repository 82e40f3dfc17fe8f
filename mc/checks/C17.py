"""HDiff and sync_diff: the unified diff says exactly which lines, below which parents, are kept, removed and added."""
import itertools
import os
import re

from mc import core, ref

ID = "C17"
TEXTS = ["a", " b", " c", "  b", "d"]
BOUNDS = {
    "quick": "all ordered pairs of the configurations of up to 4 lines of 5 line texts (nested to depth 3) as unified diff, in all of five syntaxes up to 5 lines together and in turn above, four input forms in turn; as sync_diff with five line "
             "specifications, removing or not; pairs of one configuration with all of up to 5 lines; chains nested to depth 5 below one or two commands; comments, repeated lines, orphan indents, spacing",
    "thorough": "all syntaxes for every pair; sync_diff for every pair of up to 4 lines; the wide pairs of up to 6 lines",
}
ASSUMPTIONS = ["lines are compared up to runs of blanks (documented)", "a repeated line below the same parent is one line", "sync_diff command semantics: a command is executed below the commands it is indented under"]
FILES = True
SPECS = ["", "b", r"^\S", "a|c", r"^\s"]
SYNTAX = ["ios", "nxos", "asa", "iosxr", "junos"]
FORMS = ["list", "tuple", "parse", "file"]


def ladder(c):
    prev = -1
    for t in c:
        n = len(t) - len(t.lstrip())
        if n > prev + 1:
            return False
        prev = n
    return True


def universe(k):
    return [list(c) for n in range(k + 1) for c in itertools.product(TEXTS, repeat=n) if ladder(c)]


# chains of up to 6 lines, each below the one before, under two commands which differ at the top only
CHAIN = [" x", "  y", "   z", "    w", "     v"]
DEEP = [a + b for a in [["a"] + CHAIN[:n] for n in range(6)] for b in [[]] + [["d"] + CHAIN[:n] for n in range(6)]]
EXTRA = [["!", "a", "!", "d"], ["a", " b", "!", "d"], ["! note", "a", " b"], ["a", "! note", "d"], [" b", "  b"], ["a", "   b", "  c"], ["a", "a", " b", " b"],
         ["a  x", " b   y z "], ["a x", " b y  z"], ["a", " b", "a", " c"], ["a", " c", "d", " b"], ["no a", "d"], ["a", " no b"], ["a", " b", "  b", " c", "  b", "d", " b"], [" b", "a"]]


def large():
    """long configurations: one section of many lines, many sections, both, and some lines different"""
    out = []
    for n, off in ((13, 0), (13, 5), (40, 0), (40, 3)):
        out.append(["a"] + [f" b{i}" for i in range(n) if (i + off) % 9] + ["d"])
        out.append([x for i in range(n) if (i + off) % 7 for x in (f"a{i}", f" b{(i + off) % 4}", f"  c{i}", " d")])
    out.append([" " * i + f"x{i}" for i in range(20)])
    out.append([" " * i + f"x{i}" for i in range(20)] + [" " * 19 + "y", " " * 13 + "z", "x0a"])
    return out


def shards(tier):
    u = len(universe(4))
    step = 3
    out = [{"k": "extra"}] + [{"k": "deep", "r": [i, i + 6]} for i in range(0, len(DEEP), 6)]
    out += [{"k": "pairs", "r": [i, min(u, i + step)]} for i in range(0, u, step)]
    v = len(universe(3 if tier == "quick" else 4))
    out += [{"k": "sync", "r": [i, min(v, i + 4)]} for i in range(0, v, 4)]
    out += [{"k": "wide", "s": s} for s in range(8)] + [{"k": "large", "i": i} for i in range(10)]
    return out


def cases(shard, tier):
    n = 0
    if shard["k"] == "large":
        u = large()
        for j, y in enumerate(u):
            yield {"x": u[shard["i"]], "y": y, "syntax": SYNTAX[(shard["i"] + j) % 5], "form": FORMS[(shard["i"] + j // 2) % 4]}
            yield {"x": u[shard["i"]], "y": y, "spec": ["", "1", r"^\S"][(shard["i"] + j) % 3], "remove": bool(j % 2)}
    elif shard["k"] == "extra":
        for x in EXTRA + universe(2):
            for y in EXTRA + universe(2):
                if x in EXTRA or y in EXTRA:
                    for syn in ("ios", "asa"):
                        for f in ("list", "parse"):
                            yield {"x": x, "y": y, "syntax": syn, "form": f}
    elif shard["k"] == "deep":
        for i in range(*shard["r"]):
            for j, y in enumerate(DEEP):
                yield {"x": DEEP[i], "y": y, "syntax": SYNTAX[(i + j) % 5], "form": FORMS[(i + j // 2) % 4]}
                yield {"x": DEEP[i], "y": y, "spec": ["", "z", "[wv]"][(i + j) % 3], "remove": bool((i + j // 3) % 2)}
    elif shard["k"] == "pairs":
        u = universe(4)
        for i in range(*shard["r"]):
            for j, y in enumerate(u):
                for syn in range(5):
                    if len(u[i]) + len(y) < 6 or syn == (i + j) % 5 or tier != "quick":
                        yield {"x": u[i], "y": y, "syntax": SYNTAX[syn], "form": FORMS[(i + j + syn) % 4]}
    elif shard["k"] == "sync":
        u = universe(3 if tier == "quick" else 4)
        for i in range(*shard["r"]):
            for y in u:
                for spec in SPECS:
                    for rm in (True, False):
                        yield {"x": u[i], "y": y, "spec": spec, "remove": rm}
    else:
        base = ["a", " b", "  b", " c", "d"]
        for y in universe(5 if tier == "quick" else 6):
            if len(y) >= 4:
                n += 1
                if n % 8 == shard["s"]:
                    yield {"x": base, "y": y, "syntax": "ios", "form": "list"}
                    yield {"x": y, "y": base, "syntax": "nxos", "form": "list"}
                    yield {"x": base, "y": y, "spec": "", "remove": True}
                    yield {"x": y, "y": base, "spec": "b", "remove": True}


def norm(t):
    return " " * (len(t) - len(t.lstrip())) + " ".join(t.split())


def paths(lines):
    out = []
    for n in ref.tree(lines):
        out.append(tuple(norm(a.text) for a in sorted(ref.ancestors(n), key=lambda a: a.i)) + (norm(n.text),))
    return out


def braces(lines):
    out, st = [], []
    for i, t in enumerate(lines):
        d = len(t) - len(t.lstrip())
        while st and st[-1] >= d:
            out.append(" " * st.pop() + "}")
        if i + 1 < len(lines) and len(lines[i + 1]) - len(lines[i + 1].lstrip()) > d:
            out.append(t + " {")
            st.append(d)
        else:
            out.append(t + ";")
    while st:
        out.append(" " * st.pop() + "}")
    return out


def unique(xs):
    return list(dict.fromkeys(xs))


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    from ciscoconfparse.ciscoconfparse import HDiff
    x, y = case["x"], case["y"]
    if "spec" in case:
        return sync(case, R, CiscoConfParse)
    syn = case["syntax"]
    fx, fy = (braces(x), braces(y)) if syn == "junos" else (list(x), list(y))
    if syn == "junos":
        if not x or not y:
            return  # an empty brace configuration is refused
        x, y = ([" " * (3 * (len(t) - len(t.lstrip()))) + t for t in z] for z in (x, y))
    px, py = paths(x), paths(y)
    keepers = []

    def give(ls, name):
        if case["form"] == "tuple":
            return tuple(ls)
        if case["form"] == "parse" and ls:
            p = CiscoConfParse(list(ls), syntax=syn)
            keepers.append((p, [(o.text, o.linenum) for o in p.ConfigObjs]))
            return p
        if case["form"] == "file" and ls:
            path = os.path.join(core.scratch(), name)
            with open(path, "w") as fh:
                fh.write("\n".join(ls) + "\n")
            return path
        return list(ls)

    d = HDiff(give(fx, "before"), give(fy, "after"), syntax=syn)
    got = d.unified_diffs(header=False)
    what = f"{x} -> {y} as {syn}: {got}"
    R.state((tuple(px), tuple(py)))
    for p, before in keepers:
        R.eq("input_changed", [(o.text, o.linenum) for o in p.ConfigObjs], before, what)
    R.eq("header", d.unified_diffs()[3:], got, what)
    R.eq("contents", d.unified_diffs_contents(), got, what)
    want = {p: " " if p in py else "-" for p in px}
    want.update({p: "+" for p in py if p not in want})
    word = {"keep": " ", "unchanged": " ", "remove": "-", "add": "+"}
    dicts = [(word[e["diff_word"]], tuple(e["parents"]) + (e["text"],)) for e in d.all_output_dicts]
    R.eq("lines", [w + p[-1] for w, p in dicts], got, what)
    R.eq("set", sorted(dicts), sorted((w, p) for p, w in want.items()), what)
    for e in d.all_output_dicts:
        R.eq("indent", e["indent"], len(e["text"]) - len(e["text"].lstrip()), what)
    if len(set(px)) == len(px):
        R.eq("before_order", [p for w, p in dicts if w != "+"], px, what)
    for parent in {p[:-1] for w, p in dicts}:
        R.eq("before_order", [p for w, p in dicts if w != "+" and p[:-1] == parent], unique([p for p in px if p[:-1] == parent]), f"below {parent}: {what}")
        R.eq("after_order", [p for w, p in dicts if w == "+" and p[:-1] == parent], unique([p for p in py if p[:-1] == parent and want[p] == "+"]), f"added below {parent}: {what}")
    # read as an indented text, every line of the diff is below its own parents
    if ladder([t.replace("   ", "") if syn == "junos" else t for t in x]) and ladder([t.replace("   ", "") if syn == "junos" else t for t in y]) and "!" not in "".join(x + y):
        R.eq("below", paths([t[1:] for t in got]), [p for _, p in dicts], what)
    R.outcome(tuple(got))
    R.trace()


def execute(start, cmds, R, what):
    """start: the set of paths; the paths after the commands"""
    state = set(start)
    st = []
    for t in cmds:
        R.step()
        n = len(t) - len(t.lstrip())
        while st and len(st[-1]) - len(st[-1].lstrip()) >= n:
            st.pop()
        if n and not st:
            R.fail("orphan", f"{what}: {t!r} has no parent")
        here = tuple(st)
        body = t.strip()
        if body.startswith("no "):
            gone = here + (" " * n + body[3:],)
            if gone not in state:
                R.fail("useless", f"{what}: {t!r} removes nothing")
            state = {p for p in state if p[:len(gone)] != gone}
            st.append(t)
        else:
            st.append(t)
            state.add(tuple(st))
    return state


def sync(case, R, CiscoConfParse):
    x, y = case["x"], case["y"]
    p = CiscoConfParse(list(x))
    rgx = re.compile(case["spec"])
    if not y:
        return
    got = p.sync_diff(list(y), case["spec"], r"\S.*$", remove_lines=case["remove"])
    px, py = set(paths(x)), set(paths(y))
    what = f"{x} to {y} for lines {case['spec']!r}: {got}"
    R.state((tuple(x), tuple(y), case["spec"]))
    R.eq("unchanged", list(p.ioscfg), [t for t in x], what)
    gone = {q for q in px if q not in py and rgx.search(q[-1])} if case["remove"] else set()
    want = {q for q in px if not any(q[:i + 1] in gone for i in range(len(q)))}
    for q in py:
        if rgx.search(q[-1]) and q not in px:
            want.update(q[:i + 1] for i in range(len(q)))
    R.eq("result", sorted(execute(px, got, R, what)), sorted(want), what)
    if px == py:
        R.eq("same", got, [], what)
    R.outcome(tuple(got))
    R.trace()
