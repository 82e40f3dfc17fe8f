"""Indentation defines the tree: parent = nearest preceding configuration line that is less indented."""
import itertools

from mc import gen, ref

ID = "C02"
SHAPES = ["0", "1", "2", "3", "c0", "c1", "c2", "e", "w"]
WIDE = ["0", "1", "2", "4", "7", "12", "t", "c0", "c3"]
PURE = ["0", "1", "2", "3", "4"]
SYN = ["ios", "nxos", "iosxr", "asa"]
BOUNDS = {
    "quick": "every indentation shape over {0..3, comments at 0..2, empty, whitespace} up to 5 lines (both blank-line modes), "
             "{0,1,2,4,7,12,tab,comments} up to 4 lines with every syntax and repeated texts, {0..4} up to 7 lines, staircases to 40 levels",
    "thorough": "the same with 6 / 5 / 8 lines",
}
ASSUMPTIONS = ["lines of banners and macros are covered by C04; lines opening or closing brace blocks are out of scope"]


def shards(tier):
    a, b, c = (5, 4, 7) if tier == "quick" else (6, 5, 8)
    out = [{"k": "S", "pre": [], "n": 1}]
    for x in SHAPES:
        for y in SHAPES:
            out.append({"k": "S", "pre": [x, y], "n": a - 2})
        out.append({"k": "S", "pre": [x], "n": 0})
    for x in WIDE:
        out.append({"k": "W", "pre": [x], "n": b - 1})
    for x in PURE:
        for y in PURE:
            for z in PURE:
                out.append({"k": "P", "pre": [x, y, z], "n": c - 3})
    out.append({"k": "L"})
    return out


def cases(shard, tier):
    k = shard["k"]
    if k == "L":
        for comment in ("!", "#", "!#"):
            for n in (9, 25, 41):
                up = list(range(n))
                for word in (up + up[::-1], up[::-1] + up, [i % 6 for i in up * 3], [(i * 5) % 7 for i in up * 3],
                             [(i * i) % 11 for i in up * 2]):
                    for same in (False, True):
                        yield {"shape": [str(w) for w in word], "opt": {"comment": comment}, "same": same}
        for comment in ("#", "!#", "#!;"):
            for n in (2, 3, 4):
                for w in itertools.product(["0", "1", "2", "c0", "c1"], repeat=n):
                    yield {"shape": list(w), "opt": {"comment": comment}, "same": False}
        return
    alpha = {"S": SHAPES, "W": WIDE, "P": PURE}[k]
    for n in range(0, shard["n"] + 1):
        for rest in itertools.product(alpha, repeat=n):
            sh = shard["pre"] + list(rest)
            if k == "S":
                blanks = "e" in sh or "w" in sh
                for ib in ((True, False) if blanks else (True,)):
                    yield {"shape": sh, "opt": {"ignore_blank_lines": ib}, "same": False}
            elif k == "W":
                for s in SYN:
                    for f in (False, True):
                        for same in (False, True):
                            yield {"shape": sh, "opt": {"syntax": s, "factory": f}, "same": same}
            else:
                yield {"shape": sh, "opt": {}, "same": False}


def compare(R, p, model, what):
    rows = ref.impl_tree(p.ConfigObjs)
    R.eq("text", [r[0] for r in rows], [n.text for n in model], what)
    for r, n in zip(rows, model):
        pos = n.i
        kids = r[3]
        R.true("foreign", r[2] != "foreign" and "foreign" not in kids, f"{what}: line {pos} is related to a line outside the configuration")
        R.true("kids-sorted", all(a < b for a, b in zip(kids, kids[1:])), f"{what}: children of line {pos} are {kids}")
        for c in kids:
            R.true("inverse", rows[c][2] == pos, f"{what}: {c} is a child of {pos} but its parent is {rows[c][2]}")
        if n.config:
            R.eq("parent", r[2], n.parent.i if n.parent else None, f"{what}: parent of line {pos} ({n.text!r})")
            R.eq("children", [c for c in kids if model[c].config], [c.i for c in n.kids], f"{what}: children of line {pos}")
        else:
            R.true("barren", kids == [], f"{what}: comment/blank line {pos} owns children {kids}")
            if n.comment and n.indent > 0 and pos and model[pos - 1].config and model[pos - 1].indent <= n.indent:
                q = ref.nearest_less_indented(model, n)
                R.eq("comment-child", r[2], q.i if q else None, f"{what}: parent of comment {pos} below a line that is no deeper")
            if r[2] is not None:
                q = ref.nearest_less_indented(model, n)
                R.true("comment-parent", n.comment and q is not None and q.i == r[2], f"{what}: line {pos} has parent {r[2]}")
        if r[2] is not None:
            R.true("listed", rows[r[2]][3].count(pos) == 1, f"{what}: line {pos} is not listed once under its parent {r[2]}")
        obj = p.ConfigObjs[pos]
        R.eq("indent", obj.indent, n.indent, f"{what}: indent of line {pos}")
        R.eq("is_comment", bool(obj.is_comment), n.comment, f"{what}: comment flag of line {pos}")
    R.outcome(tuple((r[2], tuple(r[3])) for r in rows))


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    opt = dict(case["opt"])
    comment = opt.get("comment", "!")
    lines = gen.shape_lines(case["shape"], case["same"], comment[-1])
    R.state((tuple(lines), sorted(opt.items())))
    p = CiscoConfParse(lines, **opt)
    model = ref.tree(lines, comment=comment, ignore_blank=opt.get("ignore_blank_lines", True))
    compare(R, p, model, f"{lines!r} {opt}")
    R.trace()
