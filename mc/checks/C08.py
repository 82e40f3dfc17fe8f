"""Parent/child searches select by the family of each line: nothing missing, nothing extra, in configuration order."""
import itertools
import re

from mc import gen, ref

ID = "C08"
LINES = ["p", "q(1)", " p", " q  x", " r", "  q x", "  p", "   r", " !q", "pr"]
PAR = ["p", "^p", "^p$", "q|p", r"^\s+\S", "r", ".", "zz", " p", r"(p|q)"]
CHI = ["q", "p", r"q\s+x", "q x", r"(.)\1", "^(?=.*r)", "zz", "p|r", r"^ \S", "!"]
LIT = ["q(1)", "p", "q x", " q  x", "q|p", "."]
SETS = [["q", "r"], ["p", "zz"], ["q x"], ["q", "p", "r"], []]
BOUNDS = {
    "quick": "every configuration of up to 4 lines over 10 texts at 4 indents (and up to 5 over 6 of them) x 10 parent regexes x 10 child regexes x recursion x "
             "whitespace mode x escaping, for every parent/child search method; the same searches in 32 configurations of up to 300 lines and 30 levels",
    "thorough": "up to 5 / 7 lines",
}
ASSUMPTIONS = ["the tree is read from the parent links that C02 decides; regexes are those whose own text does not occur literally in a line they do not match"]
CORE = ["p", " q  x", " p", "  q x", "  p", "   r"]


BIG = LINES + ["P", " Q x", "  P", "   R", "p" * 300, " r" + "s" * 300, " \u00e9q"]


def shards(tier):
    n, m = (4, 5) if tier == "quick" else (5, 7)
    out = [{"large": i, "a": a} for a in ("large", "core") for i in range(4)] + [{"pre": [], "n": 0, "a": "full"}] + [{"pre": [a], "n": 0, "a": "full"} for a in LINES]
    for a in LINES:
        for b in LINES:
            out.append({"pre": [a, b], "n": n - 2, "a": "full"})
    for a in CORE:
        for b in CORE:
            for c in CORE:
                out.append({"pre": [a, b, c], "n": m - 3, "a": "core"})
    return out


def cases(shard, tier):
    if "large" in shard:
        for lines in list(gen.large(BIG, "p", (13, 60)) if shard["a"] == "large" else gen.large(CORE + ["pr"], "p", (130, 300)))[shard["large"]::4]:
            yield {"lines": lines, "q": "part", "factory": len(lines) == 13}
        return
    if shard["a"] == "full":
        for n in range(shard["n"] + 1):
            for rest in itertools.product(LINES, repeat=n):
                lines = shard["pre"] + list(rest)
                yield {"lines": lines, "q": "full" if len(lines) <= 3 else "part", "factory": len(lines) == 2}
    else:
        for rest in itertools.product(CORE, repeat=shard["n"]):
            yield {"lines": shard["pre"] + list(rest), "q": "part", "factory": False}


def ws(p):
    return r"\s+".join(re.split(r"\s+", p))


_C = {}


def comp(p, ign, esc):
    k = (p, ign, esc)
    if k not in _C:
        if esc:
            parts = re.split(r"(\s+)", p)
            p = "".join((r"\s+" if ign else x) if x.isspace() else re.escape(x) for x in parts if x)
        elif ign:
            p = ws(p)
        _C[k] = re.compile(p)
    return _C[k].search


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    lines = case["lines"]
    R.state((tuple(lines), case["factory"]))
    p = CiscoConfParse(list(lines), factory=case["factory"])
    objs = list(p.ConfigObjs)
    n = len(objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    before = ref.impl_tree(objs)
    par = [r[2] for r in before]
    kids = [[j for j in range(n) if par[j] == i] for i in range(n)]

    def anc(i):
        r = []
        while par[i] is not None:
            i = par[i]
            r.append(i)
        return r
    ancs = [anc(i) for i in range(n)]
    desc = [[j for j in range(n) if i in ancs[j]] for i in range(n)]

    def ids(res):
        return [pos.get(id(o), "foreign") for o in res]

    full = case["q"] == "full"
    combos = [(a, b, False) for a in (PAR if full else PAR[:6]) for b in (CHI if full else CHI[:6])]
    if full:
        combos += [(a, b, True) for a in LIT for b in LIT]
    for pat, cat, esc in combos:
        for ign in ((False, True) if full else (False,)):
            fp, fc = comp(pat, ign, esc), comp(cat, ign, esc)
            P = [i for i in range(n) if fp(lines[i])]
            C = {i for i in range(n) if fc(lines[i])}
            for rec in (False, True):
                fam = desc if rec else kids
                w = f"{lines!r} parent={pat!r} child={cat!r} ignore_ws={ign} recurse={rec} escape={esc}"
                have = [i for i in P if any(c in C for c in fam[i])]
                lack = [i for i in P if not any(c in C for c in fam[i])]
                chil = sorted({c for i in P for c in fam[i] if c in C})
                R.eq("find_parent_objects", ids(p.find_parent_objects(pat, cat, ignore_ws=ign, recurse=rec, escape_chars=esc)), have, w)
                R.eq("find_parent_objects_wo_child", ids(p.find_parent_objects_wo_child(pat, cat, ignore_ws=ign, recurse=rec, escape_chars=esc)), lack, w)
                R.eq("find_child_objects", ids(p.find_child_objects(pat, cat, ignore_ws=ign, recurse=rec, escape_chars=esc)), chil, w)
                if esc:
                    continue
                R.eq("find_objects_w_child", ids(p.find_objects_w_child(pat, cat, ignore_ws=ign, recurse=rec)), have, w)
                R.eq("find_objects_wo_child", ids(p.find_objects_wo_child(pat, cat, ignore_ws=ign, recurse=rec)), lack, w)
                if rec:
                    continue
                R.eq("find_objects_w_parents", ids(p.find_objects_w_parents(pat, cat, ignore_ws=ign)), chil, w)
                R.eq("find_parents_w_child", list(p.find_parents_w_child(pat, cat, ignore_ws=ign)), [lines[i] for i in have], w)
                R.eq("find_parents_wo_child", list(p.find_parents_wo_child(pat, cat, ignore_ws=ign)), [lines[i] for i in lack], w)
                R.eq("find_children_w_parents", list(p.find_children_w_parents(pat, cat, ignore_ws=ign)),
                     [lines[i] for i in sorted(C) if any(a in P for a in ancs[i])], w)
    for pat in PAR[:5]:
        for ign in (False, True):
            fp = comp(pat, ign, False)
            P = [i for i in range(n) if fp(lines[i])]
            for ss in SETS:
                fs = [comp(c, ign, False) for c in ss]
                for rec in (False, True):
                    fam = desc if rec else kids
                    w = f"{lines!r} parent={pat!r} children={ss!r} ignore_ws={ign} recurse={rec}"
                    allof = [i for i in P if all(any(f(lines[c]) for c in fam[i]) for f in fs)]
                    R.eq("find_objects_w_all_children", ids(p.find_objects_w_all_children(pat, list(ss), ignore_ws=ign, recurse=rec)), allof, w)
                    if not rec:
                        R.eq("find_objects_w_missing_children", ids(p.find_objects_w_missing_children(pat, list(ss), ignore_ws=ign)),
                             [i for i in P if i not in allof], w)
                    if ss:
                        per = [[i for i in P if any(f(lines[c]) for c in fam[i])] for f in fs]
                        R.eq("list_of_children", ids(p.find_parent_objects([pat] + ss, ignore_ws=ign, recurse=rec)),
                             sorted({i for x in per for i in x}) if all(per) else [], w)
                        R.eq("list_last_child", ids(p.find_child_objects([pat] + ss, ignore_ws=ign, recurse=rec)),
                             sorted({c for i in P for c in fam[i] if fs[-1](lines[c])}) if all(per) else [], w)
    if full:
        for pat in LIT:
            for pair in itertools.product(LIT, repeat=2):
                for ign in (False, True):
                    P = [i for i in range(n) if comp(pat, ign, True)(lines[i])]
                    fs = [comp(c, ign, True) for c in pair]
                    for rec in (False, True):
                        fam = desc if rec else kids
                        w = f"{lines!r} parent={pat!r} children={pair!r} ignore_ws={ign} recurse={rec} escape=True"
                        per = [[i for i in P if any(f(lines[c]) for c in fam[i])] for f in fs]
                        R.eq("list_of_children", ids(p.find_parent_objects((pat, *pair), ignore_ws=ign, recurse=rec, escape_chars=True)),
                             sorted({i for x in per for i in x}) if all(per) else [], w)
                        R.eq("list_last_child", ids(p.find_child_objects((pat, *pair), ignore_ws=ign, recurse=rec, escape_chars=True)),
                             sorted({c for i in P for c in fam[i] if fs[-1](lines[c])}) if all(per) else [], w)
        for i, o in enumerate(objs):
            for j, c in enumerate(objs):
                if "(" in lines[i] + lines[j]:
                    continue
                w = f"{lines!r} line objects {i} and {j} as parent and child"
                fp, fc = re.compile(lines[i]).search, re.compile(lines[j]).search
                P = [k for k in range(n) if fp(lines[k])]
                have = [k for k in P if any(fc(lines[c]) for c in kids[k])]
                R.eq("objects_as_specs", ids(p.find_parent_objects(o, c)), have, w)
                R.eq("objects_as_specs", ids(p.find_parent_objects_wo_child(o, c)), [k for k in P if k not in have], w)
                R.eq("objects_as_specs", ids(p.find_child_objects(o, c)), sorted({c for k in P for c in kids[k] if fc(lines[c])}), w)
    R.eq("unchanged", ref.impl_tree(p.ConfigObjs), before, "configuration after the searches")
    R.outcome(tuple(par))
    R.trace()
