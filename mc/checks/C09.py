"""A branch search returns every root-to-leaf chain of matching lines, padded with None where a chain stops."""
import itertools
import re

from mc import gen, ref

ID = "C09"
LINES = ["a1", "B2", " a3", " b4", "  a5", "  b6", "   b7", " !a8"]
SPEC = ["a", r"^\s*([ab])(\d)", "b", "zz", r"(\d)", "^[^ ]", r"(z)?[aB]"]
BOUNDS = {
    "quick": "every configuration of up to 5 lines over 8 texts x every branchspec of 1 to 3 regexes over 7 (and 40 of length 4) x regex flags x object/group results; every branchspec of up to 2 in 26 configurations of up to 130 lines and 30 levels",
    "thorough": "up to 6 lines",
}
ASSUMPTIONS = ["the tree is read from the parent links that C02 decides"]


def shards(tier):
    n = 5 if tier == "quick" else 6
    out = [{"large": i} for i in range(8)] + [{"pre": [], "n": 0}] + [{"pre": [a], "n": 0} for a in LINES]
    for a in LINES:
        for b in LINES:
            out.append({"pre": [a, b], "n": n - 2})
    return out


def cases(shard, tier):
    if "large" in shard:
        for lines in list(gen.large(LINES + ["A22", " B44", "  c6"], "a1", (13, 30, 60, 130)))[shard["large"]::8]:
            yield {"lines": lines, "depth": 2}
        return
    for n in range(shard["n"] + 1):
        for rest in itertools.product(LINES, repeat=n):
            lines = shard["pre"] + list(rest)
            yield {"lines": lines, "depth": 3 if len(lines) <= 3 else 2}


FOUR = [s for s in itertools.product(SPEC[:3], repeat=4) if s[0] == "a"][::1][:27] + [("^[^ ]", "a", "zz", "b"), (r"(\d)", r"(\d)", r"(\d)", r"(\d)")]
DEEP3 = [("a", "b", "b"), ("^[^ ]", r"(\d)", r"(\d)"), (r"^\s*([ab])(\d)", "b", "zz"), ("b", "a", "b"), ("^[^ ]", "zz", "a")]


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    lines = case["lines"]
    R.state(tuple(lines))
    p = CiscoConfParse(list(lines))
    objs = list(p.ConfigObjs)
    n = len(objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    before = ref.impl_tree(objs)
    par = [r[2] for r in before]
    kids = [[j for j in range(n) if par[j] == i] for i in range(n)]
    specs = [s for d in range(1, case["depth"] + 1) for s in itertools.product(SPEC, repeat=d)]
    specs += FOUR if case["depth"] == 3 else DEEP3
    for spec in specs:
        for flags in (0, re.I):
            if flags and len(spec) > 2:
                continue
            hit = [[bool(re.search(s, l, flags)) for l in lines] for s in spec]

            def grow(chain, d):
                if d == len(spec):
                    return [chain]
                if d == 0:
                    nxt = [i for i in range(n) if hit[0][i]]
                elif chain[-1] is None:
                    nxt = []
                else:
                    nxt = [k for k in kids[chain[-1]] if hit[d][k]]
                out = []
                for k in (nxt or [None]):
                    out += grow(chain + [k], d + 1)
                return out
            want = grow([], 0)
            w = f"{lines!r} branchspec={spec!r} flags={flags}"
            got = p.find_object_branches(spec, regex_flags=flags)
            R.eq("branches", [[None if o is None else pos.get(id(o), "foreign") for o in b] for b in got], want, w)
            if len(spec) > 2 and case["depth"] != 3:
                continue
            wg = []
            for b in want:
                row = []
                for s, i in zip(spec, b):
                    if i is None:
                        row.append((None,))
                    else:
                        g = re.search(s, lines[i], flags).groups()
                        row.append(g if g else (lines[i],))
                wg.append(row)
            R.eq("groups", [list(b) for b in p.find_object_branches(spec, regex_flags=flags, regex_groups=True)], wg, w)
    R.eq("unchanged", ref.impl_tree(p.ConfigObjs), before, "configuration after the searches")
    R.outcome(tuple(par))
    R.trace()
