"""Typed value extraction returns the requested group of the first match, cast as requested, or the default."""
import itertools
import re

from mc import gen, ref

ID = "C11"
LINES = ["p 1", "q", " mtu 1500", " bw 10 20", "  mtu 9000", "  q 7", " ip 1.1.1.1/24", " !mtu 5", "   bw 3 4"]
PATS = [(r"mtu (\d+)", 1), (r"bw (\d+) (\d+)", 2), (r"(\w+) (\d+)", 1), (r"(\w+) (\d+)", 2), (r"^ +(\w+)", 1), (r"mtu (\d+)", 0),
        (r"(?P<k>[a-z]+) (?P<v>\d+)", 2), (r"zz(\d)", 1), (r"ip (\S+)", 1), (r"^(\s*)[pqm]", 1),
        (r"(?:mtu|bw) (\d{4})?", 1), (r"(p|q) (\d)?(\w*)", 2), (r"(p|q) ?(\d*)", 2)]
GD = [(r"(?P<k>[a-z]+) (?P<v>\d+)", {"k": str, "v": int}), (r"mtu (?P<v>\d+)", {"v": float}), (r"zz(?P<k>.)", {"k": int}), (r"bw (?P<a>\d+) (?P<b>\d+)", {"b": int, "a": None}), (r"^(?P<i> *)[qpm]\S*(?P<e>5*) ", {"i": str, "e": None}),
      (r"(?P<a>mtu|bw) (?P<b>\d{4})?(?P<c>x)?", {"a": str, "b": int, "c": None, "unknown": str}), (r"(?P<q>q)?(?P<n> \d)?$", {"q": str, "n": float})]
CH = ["mtu", r"^\s+q", r"\d\d", "zz", "^  "]
BOUNDS = {
    "quick": f"every configuration of up to 5 lines over 9 texts at 4 indents, every line of it x {len(PATS)} regex/group pairs x result types x defaults x recursion "
             f"for every extraction method, plus {len(GD)} named-group dictionaries; the same in 16 configurations of up to 40 lines and 30 levels",
    "thorough": "up to 6 lines",
}
ASSUMPTIONS = ["the tree is read from the parent links that C02 decides"]


def shards(tier):
    n = 5 if tier == "quick" else 6
    out = [{"large": i} for i in range(8)] + [{"pre": [], "n": 0}] + [{"pre": [a], "n": 0} for a in LINES]
    for a in LINES:
        for b in LINES:
            out.append({"pre": [a, b], "n": n - 2})
    return out


def cases(shard, tier):
    if "large" in shard:
        for lines in list(gen.large(LINES + [" MTU 7", "P 5", "  bw 123456789 987654321"], "p 1", (13, 40)))[shard["large"]::8]:
            yield {"lines": lines, "factory": False}
        return
    for n in range(shard["n"] + 1):
        for rest in itertools.product(LINES, repeat=n):
            lines = shard["pre"] + list(rest)
            yield {"lines": lines, "factory": len(lines) == 3}


def cast(v, typ):
    return typ(v)


def same(a, b):
    return type(a) is type(b) and a == b


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    from ciscoconfparse.ccp_util import IPv4Obj
    lines = case["lines"]
    R.state((tuple(lines), case["factory"]))
    p = CiscoConfParse(list(lines), factory=case["factory"])
    objs = list(p.ConfigObjs)
    n = len(objs)
    before = ref.impl_tree(objs)
    par = [r[2] for r in before]
    kids = [[j for j in range(n) if par[j] == i] for i in range(n)]

    def desc(i):
        r = []
        for k in kids[i]:
            r += [k] + desc(k)
        return sorted(r)
    deep = [desc(i) for i in range(n)]
    pos = {id(o): i for i, o in enumerate(objs)}

    def typed(text_idx, rx, group, typ, default, untyped):
        for j in text_idx:
            m = rx.search(lines[j])
            if m and m.group(group) is not None:
                return typ(m.group(group))
        return default if untyped else typ(default)

    for pat, group in PATS:
        rx = re.compile(pat)
        if "ip" in pat:
            typs = [(str, "", False), (IPv4Obj, "2.2.2.2/32", False), (IPv4Obj, None, True)]
        elif (pat, group) in (PATS[0], PATS[1], PATS[3], PATS[6]):
            typs = [(str, "", False), (int, -1, False), (float, "7", False), (int, "no", True), (str, None, True), (str, None, False)]
        else:
            typs = [(str, "", False), (str, None, True), (str, 5, False), (list, "ab", False), (len, "ab", False)]
        for typ, default, unt in typs:
            w = f"{lines!r} regex={pat!r} group={group} type={typ.__name__} default={default!r} untyped={unt}"
            kw = dict(group=group, result_type=typ, default=default, untyped_default=unt)
            for i, o in enumerate(objs):
                R.true("re_match_typed", same(o.re_match_typed(pat, **kw), typed([i], rx, group, typ, default, unt)), f"{w} line {i}: {o.re_match_typed(pat, **kw)!r}")
                for rec in (True, False):
                    want = typed([i] + (deep[i] if rec else kids[i]), rx, group, typ, default, unt)
                    got = o.re_match_iter_typed(pat, recurse=rec, **kw)
                    R.true("re_match_iter_typed", same(got, want), f"{w} line {i} recurse={rec}: got={got!r} want={want!r}")
            roots = [j for j in range(n) if par[j] is None]
            got, want = p.re_match_iter_typed(pat, **kw), typed(roots, rx, group, typ, default, unt)
            R.true("config.re_match_iter_typed", same(got, want), f"{w}: got={got!r} want={want!r}")
        for i, o in enumerate(objs):
            m = rx.search(lines[i])
            R.eq("re_match", o.re_match(pat, group=group, default=None), m.group(group) if m else None, f"{lines!r} line {i} {pat!r} {group}")
    for pat, gd in GD:
        rx = re.compile(pat)
        for i, o in enumerate(objs):
            for rec in (True, False):
                want = {k: "none" for k in gd}
                for j in [i] + (deep[i] if rec else kids[i]):
                    m = rx.search(lines[j])
                    if m:
                        got = m.groupdict()
                        want = {k: "none" if got.get(k) is None else t(got[k]) if t else got[k] for k, t in gd.items()}
                        break
                got = o.re_match_iter_typed(pat, groupdict=gd, default="none", recurse=rec)
                R.eq("groupdict", {k: (type(v), v) for k, v in got.items()}, {k: (type(v), v) for k, v in want.items()}, f"{lines!r} line {i} {pat!r} recurse={rec}")
    for pat in CH:
        rx = re.compile(pat)
        for i, o in enumerate(objs):
            w = f"{lines!r} line {i} regex={pat!r}"
            R.eq("re_search", o.re_search(pat, default=None), lines[i] if rx.search(lines[i]) else None, w)
            for rec, fam in ((False, kids[i]), (True, deep[i])):
                hit = [j for j in fam if rx.search(lines[j])]
                R.eq("re_search_children", [pos.get(id(x), "foreign") for x in o.re_search_children(pat, recurse=rec)], hit, w)
                R.eq("has_child_with", bool(o.has_child_with(pat, all_children=rec)), bool(hit), w)
        hit = [j for j in range(n) if rx.search(lines[j])]
        R.eq("config.re_search_children", [pos.get(id(x), "foreign") for x in p.re_search_children(pat, recurse=True)], hit, f"{lines!r} {pat!r}")
        R.eq("config.re_search_children", [pos.get(id(x), "foreign") for x in p.re_search_children(pat)], [j for j in hit if par[j] is None], f"{lines!r} {pat!r}")
    R.eq("unchanged", ref.impl_tree(p.ConfigObjs), before, "configuration after the extraction")
    R.outcome(tuple(par))
    R.trace()
