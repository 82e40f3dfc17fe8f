"""A line search returns exactly the matching lines, in configuration order, and changes nothing."""
import itertools
import re

from mc import gen, ref

ID = "C07"
LINES = ["a", " a", "ab", "b a", " b  a", "a.b", "aa", "!a", " b\ta"]
# (regex, is a literal-free-of-flags) -- none of them contains inline global flags
PATS = ["a", "^a", "a$", "^a$", "b|a", "ab|b", "a|zz", "b a", r"b\s+a", " a", "  a", "a.b", r"a\.b", "(a)", r"(a)\1", r"^\s+\S", "a(?=b)", ".*", "z*",
        "zz", "[b!]", r"^\s*!", "(?:a|b)(b| )?", "^(?=.*b)", "b\ta", "b +a"]
BOUNDS = {
    "quick": "every configuration of up to 5 lines over 9 texts x 25 regexes x every flag combination of every line-search method; the same searches in 26 configurations of up to 300 lines and 30 levels",
    "thorough": "up to 6 lines",
}
ASSUMPTIONS = ["oracle: Python's own regex engine applied to each line (exactmatch = fullmatch; ignore_ws = every run of whitespace in the regex matches "
               "any run of whitespace)", "ignore_ws is only used with regexes whose whitespace is not quantified"]
SYN = ["ios", "nxos", "iosxr", "asa"]


BIG = LINES + ["A", " aB", "  B A", "b" * 400 + "a", " \u00e9a b", "zz zz b", "  a  " + "b" * 200 + " a"]


def shards(tier):
    n = 5 if tier == "quick" else 6
    out = [{"pre": [], "n": 0}, {"large": 0}, {"large": 1}]
    for a in LINES:
        out.append({"pre": [a], "n": 0})
        for b in LINES:
            out.append({"pre": [a, b], "n": n - 2})
    return out


def cases(shard, tier):
    if "large" in shard:
        for lines in list(gen.large(BIG, "a"))[shard["large"]::2]:
            yield {"lines": lines, "s": "ios", "factory": len(lines) == 40}
        return
    for n in range(shard["n"] + 1):
        for rest in itertools.product(LINES, repeat=n):
            lines = shard["pre"] + list(rest)
            full = len(lines) <= 3
            yield {"lines": lines, "s": "ios", "factory": False}
            if full:
                yield {"lines": lines, "s": "ios", "factory": True}
            if len(lines) <= 2:
                for s in SYN[1:]:
                    yield {"lines": lines, "s": s, "factory": True}


def ws(p):
    return r"\s+".join(re.split(r"\s+", p))


_RX = {}


def rx(p, exact, ign):
    k = (p, exact, ign)
    if k not in _RX:
        r = re.compile(ws(p) if ign else p)
        _RX[k] = r.fullmatch if exact else r.search
    return _RX[k]


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    lines = case["lines"]
    R.state((tuple(lines), case["s"], case["factory"]))
    p = CiscoConfParse(list(lines), syntax=case["s"], factory=case["factory"])
    objs = list(p.ConfigObjs)
    before = ref.impl_tree(objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    for pat in PATS:
        for exact in (False, True):
            for ign in (False, True):
                if ign and pat == "b +a":
                    continue
                f = rx(pat, exact, ign)
                want = [i for i, l in enumerate(lines) if f(l)]
                w = f"{lines!r} regex={pat!r} exactmatch={exact} ignore_ws={ign}"
                R.eq("find_objects", [pos.get(id(o), "foreign") for o in p.find_objects(pat, exactmatch=exact, ignore_ws=ign)], want, w)
                R.eq("find_lines", list(p.find_lines(pat, exactmatch=exact, ignore_ws=ign)), [lines[i] for i in want], w)
        hit = any(rx(pat, False, False)(l) for l in lines)
        R.eq("has_line_with", bool(p.has_line_with(pat)), hit, f"{lines!r} regex={pat!r}")
        R.eq("list_has_line_with", bool(p.ConfigObjs.has_line_with(pat)), hit, f"{lines!r} regex={pat!r}")
    R.eq("ioscfg", list(p.ioscfg), lines, "text of the configuration after the searches")
    R.eq("unchanged", ref.impl_tree(p.ConfigObjs), before, "configuration after the searches")
    R.outcome(tuple(before[i][2] for i in range(len(before))))
    R.trace()
