"""Derived family relations (descendants, ancestors, lineage, siblings, endpoints, walks) follow from the tree."""
import itertools

from mc import gen, ref

ID = "C03"
PURE = ["0", "1", "2", "3"]
COMM = ["0", "1", "2", "c0", "c1", "e"]
BOUNDS = {
    "quick": "every indentation shape over {0..3} up to 7 lines and over {0,1,2,comment 0,comment 1,empty} up to 6 lines, with distinct, "
             "identical and digit-only texts; staircases up to 40 levels; digit-leading texts on up to 130 lines",
    "thorough": "the same with 8 / 7 lines",
}
ASSUMPTIONS = ["relations are recomputed from the parent links that C02 decides"]


def shards(tier):
    a, b = (7, 6) if tier == "quick" else (8, 7)
    out = []
    for x in PURE:
        for y in PURE:
            out.append({"k": "P", "pre": [x, y], "n": a - 2})
    for x in COMM:
        for y in COMM:
            out.append({"k": "C", "pre": [x, y], "n": b - 2})
    for x in COMM:
        out.append({"k": "C", "pre": [x], "n": 0})
    out.append({"k": "L"})
    return out


def cases(shard, tier):
    if shard["k"] == "L":
        yield {"shape": [], "text": "distinct", "factory": False}
        for n in (9, 20, 40):
            up = list(range(n))
            for word in (up + up[::-1], [i % 6 for i in up * 3], [(i * 5) % 7 for i in up * 3]):
                for t in ("distinct", "same", "digits"):
                    yield {"shape": [str(w) for w in word], "text": t, "factory": False}
        for n in (12, 112, 130):
            yield {"shape": [str(min(i % 3, 2)) for i in range(n)], "text": "clash", "factory": False}
            yield {"shape": ["0"] + ["1"] * n, "text": "clash", "factory": False}
        return
    alpha = PURE if shard["k"] == "P" else COMM
    for n in range(shard["n"] + 1):
        for rest in itertools.product(alpha, repeat=n):
            sh = shard["pre"] + list(rest)
            for t in (("distinct", "same", "digits") if len(sh) <= 4 else ("distinct", "same")):
                yield {"shape": sh, "text": t, "factory": False}
            if len(sh) <= 4:
                yield {"shape": sh, "text": "distinct", "factory": True}


def lines_of(case):
    t = case["text"]
    lines = gen.shape_lines(case["shape"], t == "same")
    if t in ("digits", "clash"):
        out = []
        for i, l in enumerate(lines):
            ind = len(l) - len(l.lstrip())
            if not l.strip() or l.strip().startswith("!"):
                out.append(l)
            elif t == "digits":
                out.append(" " * ind + str(i % 3))
            else:  # line number 1 with text '1 0' against line number 11 with text ' 0' and the like
                out.append(" " * ind + ("1 0" if ind == 0 else "0"))
        lines = out
    return lines


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    lines = lines_of(case)
    ib = not ("e" in case["shape"] and len(case["shape"]) % 2)
    R.state((tuple(lines), ib, case["factory"]))
    p = CiscoConfParse(lines, ignore_blank_lines=ib, factory=case["factory"])
    objs = list(p.ConfigObjs)
    pos = {id(o): i for i, o in enumerate(objs)}
    n = len(objs)
    par = [None if o.parent is o else pos[id(o.parent)] for o in objs]
    kids = [[] for _ in objs]
    for i, q in enumerate(par):
        if q is not None:
            kids[q].append(i)

    def desc(i):
        r = []
        for k in kids[i]:
            r.append(k)
            r += desc(k)
        return sorted(r)

    def anc(i):
        r = []
        while par[i] is not None:
            i = par[i]
            r.append(i)
        return r[::-1]

    def ids(objects):
        return [pos.get(id(o), "foreign") for o in objects]

    what = f"{lines!r}"
    for i, o in enumerate(objs):
        d, a = desc(i), anc(i)
        w = f"{what} line {i}:"
        R.eq("children", ids(o.children), kids[i], w)
        R.eq("all_children", ids(o.all_children), d, w)
        R.eq("all_parents", ids(o.all_parents), a, w)
        R.eq("has_children", bool(o.has_children), bool(kids[i]), w)
        R.eq("is_parent", bool(o.is_parent), bool(kids[i]), w)
        R.eq("is_child", bool(o.is_child), par[i] is not None, w)
        R.eq("family_endpoint", o.family_endpoint, d[-1] if d else i, w)
        R.eq("lineage", ids(o.lineage), a + [i] + d, w)
        R.eq("geneology", ids(o.geneology), a + [i], w)
        R.eq("geneology_text", list(o.geneology_text), [objs[j].text for j in a + [i]], w)
        R.eq("ioscfg", list(o.ioscfg), [o.text] + [objs[j].text for j in d], w)
        if par[i] is not None:
            R.eq("siblings", ids(o.siblings), [k for k in kids[par[i]] if objs[k].indent == o.indent], w)
        for j in range(max(0, i - 3), min(n, i + 4)):
            R.eq("equality", bool(o == objs[j]), i == j, f"{w} == line {j}")
            R.eq("order", (bool(o < objs[j]), bool(o > objs[j])), (i < j, i > j), f"{w} vs line {j}")
    cl = p.ConfigObjs
    R.eq("list.all_parents", ids(cl.all_parents), [i for i in range(n) if kids[i]], what)
    R.eq("last_index", cl.last_index, n - 1, what)
    for b in (0, 1, 2):
        R.eq("iter_with_comments", ids(cl.iter_with_comments(b)), list(range(b, n)), what)
        R.eq("iter_no_comments", ids(cl.iter_no_comments(b)), [i for i in range(b, n) if not objs[i].is_comment], what)
    R.outcome(tuple(par))
    R.trace()
